"""Points, private and public keys (C20)."""




@scenario("C20", cases=lambda tier: [{}, dict(earlier={})], expect=["key", "refused"], bounds="every 32 bytes")
@spec.again
def private_key(S):
    b = S.bytes("key", 32)
    P = S.lib.secp256k1
    r = S.call(P.PrivateKey.from_bytes, b)
    if spec.scalar_ok(b):
        S.check(r.ok, "a key from 1 to the order minus 1 is accepted")
        S.check(S.same(r.value.raw(), b), "the private key returns its bytes")
        q = r.value.public_key()
        for c, f in ((True, "raw_compressed"), (False, "raw_uncompressed")):
            S.check(S.same(getattr(q, f)(), spec.pubkey(b, c)), f + " is the public key of the private key")
        S.check(S.same(q.raw("compressed"), spec.pubkey(b, True)), "raw() gives the compressed form")
        S.check(S.same(q.raw("uncompressed"), spec.pubkey(b, False)), "raw() gives the uncompressed form")
        S.reach("key")
    else:
        S.check(r.raised(S.lib.exceptions.Secp256k1Error), "zero and values from the order on are refused")
        S.reach("refused")


def lens(tier):
    return (0, 1, 31, 33, 64) if tier == "quick" else [n for n in range(0, 70) if n != 32]


@scenario("C20", cases=lambda tier: [dict(n=n) for n in lens(tier)], expect=["refused"], bounds="every byte string of the listed lengths")
def private_key_length(S, n):
    r = S.call(S.lib.secp256k1.PrivateKey.from_bytes, S.bytes("key", n))
    S.check(r.raised(S.lib.exceptions.Secp256k1Error), "a private key of another length is refused")
    S.reach("refused")


def agree(S, obj, c, u):
    """a Point or PublicKey object shows this point in every form"""
    P = S.lib.secp256k1
    x, y = int.from_bytes(u[1:33], "big"), int.from_bytes(u[33:], "big")
    if isinstance(obj, P.PublicKey):
        S.check(S.same(obj.raw_compressed(), c), "compressed form")
        S.check(S.same(obj.raw_uncompressed(), u), "uncompressed form")
        obj = obj.point()
    S.check(S.all(S.same(obj.x(), x), S.same(obj.y(), y)), "coordinates")
    S.check(S.same(obj.raw_encoded(), c), "encoded form")
    S.check(S.same(obj.raw_decoded(), u[1:]), "decoded form")
    S.check(S.same(obj.raw(), u[1:]), "raw form")


@scenario("C20", cases=lambda tier: spec.twice([dict(form=f) for f in ("compressed", "uncompressed", "raw", "coordinates", "point", "private")]), expect=["done"],
          bounds="every multiple of the generator")
@spec.again
def every_form(S, form):
    k = S.bytes("scalar", 32)
    S.assume(spec.scalar_ok(k))
    P = S.lib.secp256k1
    c, u = spec.pubkey(k, True), spec.pubkey(k, False)
    if form == "coordinates":
        objs = [S.call(P.Point.from_coordinates, int.from_bytes(u[1:33], "big"), int.from_bytes(u[33:], "big"))]
    elif form == "point":
        objs = [S.call(P.PublicKey.from_point, P.Point.from_bytes(c)), S.call(P.PublicKey.from_point, P.PublicKey.from_bytes(u).point())]
    elif form == "private":
        objs = [S.call(P.PrivateKey.from_bytes(k).public_key)]
    else:
        e = c if form == "compressed" else u if form == "uncompressed" else u[1:]
        objs = [S.call(P.Point.from_bytes, e), S.call(P.PublicKey.from_bytes, e)]
    for o in objs:
        S.check(o.ok, "a point is read in this form")
        agree(S, o.value, c, u)
    S.reach("done")


@scenario("C20", cases=lambda tier: [dict(n=n) for n in ((0, 1, 32, 33, 34, 63, 64, 65, 66) if tier == "quick" else range(0, 70))],
          expect=["refused", "point"], bounds="every byte string of the listed lengths")
def any_bytes(S, n):
    b = S.bytes("data", n)
    P = S.lib.secp256k1
    valid = spec.on_curve(b)
    for C in (P.Point, P.PublicKey):
        r = S.call(C.from_bytes, b)
        if valid:
            S.check(r.ok, "the encoding of a point is read")
            agree(S, r.value, *spec.both_forms(b))
            S.reach("point")
        else:
            S.check(r.raised(S.lib.exceptions.Secp256k1Error), "what is not the encoding of a point is refused with the curve error")
            S.reach("refused")


@scenario("C20", expect=["sum", "product"], bounds="every two multiples of the generator by scalars below 2^255 and scalar 1..order-1")
def arithmetic(S):
    k, n = S.bytes("scalar", 32), S.bytes("other", 32)
    S.assume(S.all(spec.scalar_ok(k), spec.scalar_ok(n)))
    P = S.lib.secp256k1
    a, b = P.PublicKey.from_bytes(spec.pubkey(k, True)).point(), P.PublicKey.from_bytes(spec.pubkey(n, False)).point()
    m = int.from_bytes(n, "big")
    for r in (S.call(lambda: a * m), S.call(lambda: m * a)):
        S.check(r.ok, "multiplication succeeds")
        S.check(S.same(r.value.raw_encoded(), spec.point_times(spec.pubkey(k, True), m, True)), "the product is the multiple of the point")
    S.reach("product")
    s = (int.from_bytes(k, "big") + m) % spec.ORDER
    if s != 0:
        r = S.call(lambda: a + b)
        S.check(r.ok, "addition succeeds")
        S.check(S.same(r.value.raw_encoded(), spec.pubkey(s.to_bytes(32, "big"), True)), "the sum is the sum of the points")
        S.reach("sum")
