"""P2PKH addresses (C12)."""


def alphabet_args(which):
    return {"default": ({}, spec.BITCOIN58), "bitcoin": (dict(alphabet=spec.BITCOIN58), spec.BITCOIN58),
            "ripple": (dict(alphabet=spec.RIPPLE58), spec.RIPPLE58)}[which]


FORMS = ("compressed", "uncompressed", "hex", "object")


def history(tier):
    one = [dict(given=g, kind=k, alphabet=a, prefixes=(30, 31)) for g, k, a in (("compressed", None, "default"), ("uncompressed", "uncompressed", "ripple"),
                                                                               ("object", "compressed", "default"))]
    return [dict(x, earlier=y) for x in one for y in one]


@scenario("C12", cases=lambda tier: history(tier) + [dict(given=g, kind=k, alphabet=a) for g in FORMS for k in ("compressed", "uncompressed", None)
                                     for a in (("default", "ripple") if tier == "quick" else ("default", "bitcoin", "ripple"))
                                     if tier != "quick" or (g == "compressed") or (a == "default" and k != "compressed")],
          expect=["done"], bounds="every point that is a multiple of the generator, every prefix 0..0xffff")
@spec.again
def encode_decode(S, given, kind, alphabet, prefixes=(0, 0xffff)):
    """the address of a public key in each accepted form"""
    k = S.bytes("scalar", 32)
    S.assume(spec.scalar_ok(k))
    ap = S.int("address_prefix", *prefixes)
    pub = spec.pubkey(k, given != "uncompressed")
    key = pub.hex() if given == "hex" else S.lib.secp256k1.PublicKey.from_bytes(pub) if given == "object" else pub
    kw, al = alphabet_args(alphabet)
    if kind is not None:
        kw = dict(kw, public_key_type=kind)
    A = S.lib.p2pkh_address.P2PKHAddress
    r = S.call(A.encode, key, address_prefix=ap, **kw)
    S.check(r.ok, "encoding succeeds")
    h = spec.hash160(spec.pubkey(k, kind != "uncompressed"))
    S.check(S.same(r.value, spec.base58check(spec.num_bytes(ap) + h, al)), "the address is prefix and HASH160 in Base58Check")
    kw.pop("public_key_type", None)
    d = S.call(A.decode, r.value, address_prefix=ap, **kw)
    S.check(d.ok, "decoding succeeds")
    S.check(S.same(d.value, h.hex()), "decoding returns the hash")
    S.reach("done")


@scenario("C12", expect=["done"], bounds="every point that is a multiple of the generator; the default prefix, type and alphabet")
def defaults(S):
    k = S.bytes("scalar", 32)
    S.assume(spec.scalar_ok(k))
    A = S.lib.p2pkh_address.P2PKHAddress
    r = S.call(A.encode, spec.pubkey(k, False))
    S.check(S.same(r.value, spec.address(spec.pubkey(k, True), 0)), "Bitcoin mainnet, compressed, by default")
    S.check(S.same(S.call(A.decode, r.value).value, spec.hash160(spec.pubkey(k, True)).hex()), "decoded with the same defaults")
    S.reach("done")


def sizes(tier):
    return [dict(n=n, alphabet=a) for n in ((0, 1, 3, 4, 5, 23, 24, 25, 26, 27) if tier == "quick" else list(range(0, 36)))
            for a in ("default", "ripple") if a == "default" or n in (24, 25, 26)] + \
        [dict(n=25, alphabet="default", prefixes=(30, 31), start="1e", earlier=dict(n=25, alphabet=a, prefixes=(30, 31), start="1e")) for a in ("default", "ripple")]


@scenario("C12", cases=sizes, expect=["refused", "read"],
          bounds="encodings of every byte string of the listed lengths, every prefix 0..0xffff")
@spec.again
def decode_any(S, n, alphabet, prefixes=(0, 0xffff), start=""):
    raw = spec.prefixed(S, "raw", n, start)
    ap = S.int("address_prefix", *prefixes)
    kw, al = alphabet_args(alphabet)
    d = S.call(S.lib.p2pkh_address.P2PKHAddress.decode, spec.base58(raw, al), address_prefix=ap, **kw)
    good = False
    if n in (25, 26):
        p = spec.num_bytes(ap)
        good = len(p) == n - 24 and raw[:n - 24] == p and spec.sha256d(raw[:-4])[:4] == raw[-4:]
    if good:
        S.check(d.ok, "an address with the right prefix, length and checksum is read")
        S.check(S.same(d.value, raw[-24:-4].hex()), "the hash in the address is returned")
        S.reach("read")
    else:
        S.check(S.any(d.raised(S.lib.exceptions.Error), d.raised(ValueError)), "a wrong prefix, length or checksum is refused")
        S.reach("refused")


@scenario("C12", cases=lambda tier: [dict(n=n) for n in ((1, 2, 4) if tier == "quick" else range(0, 9))], expect=["refused"],
          bounds="every text (any code points) of the listed lengths")
def short_text(S, n):
    d = S.call(S.lib.p2pkh_address.P2PKHAddress.decode, S.chars("text", n))
    S.check(S.any(d.raised(S.lib.exceptions.Error), d.raised(ValueError)), "a text that is no address is refused")
    S.reach("refused")
