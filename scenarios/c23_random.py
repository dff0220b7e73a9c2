"""Omitted salts and seeds (C23)."""


def how(S, given):
    return {"omitted": {}, "none": dict(x=None), "empty": dict(x=b""), "empty text": dict(x="")}[given]


def drawn(S, n0):
    """what the random source gave since call n0"""
    out = b""
    for name, n, data in S.env()[n0:]:
        out = out + data
    return out


@scenario("C23", cases=lambda tier: [dict(given=g, lot=l, inst=i) for g in ("omitted", "none", "empty", "empty text") for l in (False, True)
                                     for i in (False, True)], expect=["done"],
          bounds="every passphrase, lot, sequence and output of the random source; the salt omitted, None or empty; two calls")
def salts(S, given, lot, inst):
    pw = S.text("passphrase")
    kw = dict(lot=S.int("lot", 100000, 999999), sequence=S.int("sequence", 0, 4095)) if lot else {}
    a = {("owner_salt" if k == "x" else k): v for k, v in how(S, given).items()}
    f = (S.lib.core.BIP38(S.lib.cryptocurrencies.Bitcoin) if inst else S.lib.core.BIP38).intermediate_code
    seen = []
    for i in range(2):
        n0 = len(S.env())
        r = S.call(f, pw, **kw, **a)
        d = drawn(S, n0)
        S.check(len(d) == 8 or lot and len(d) == 4, "a whole salt is drawn from the random source for each call")
        e = S.call(f, pw, owner_salt=d, **kw)
        S.check(S.same(r.kind(), e.kind()), "the result is that of the drawn salt given explicitly")
        if r.ok and e.ok:
            S.check(S.same(r.value, e.value), "the result is that of the drawn salt given explicitly")
            seen.append(r.value)
    if len(seen) == 2:
        S.reach("done")


@scenario("C23", cases=lambda tier: [dict(given=g, compressed=c, lot=l) for g in ("omitted", "none", "empty", "empty text") for c in (False, True)
                                     for l in ((False,) if tier == "quick" else (False, True))], expect=["done"],
          bounds="every intermediate code and output of the random source; the seed omitted, None or empty; two calls")
def seeds(S, given, compressed, lot):
    k = S.bytes("pass_factor", 32)
    S.assume(spec.scalar_ok(k))
    code = spec.base58check((spec.MAGIC_LOT if lot else spec.MAGIC_NOLOT) + S.bytes("entropy", 8) + spec.pubkey(k, True))
    a = {("seed" if n == "x" else n): v for n, v in how(S, given).items()}
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    wt = "wif-compressed" if compressed else "wif"
    ok = 0
    for i in range(2):
        n0 = len(S.env())
        r = S.call(b.create_new_encrypted_wif, code, wt, **a)
        d = drawn(S, n0)
        S.check(len(d) == 24, "a whole seed is drawn from the random source for each call")
        e = S.call(b.create_new_encrypted_wif, code, wt, d)
        S.check(S.same(r.kind(), e.kind()), "the result is that of the drawn seed given explicitly")
        if r.ok and e.ok:
            S.check(S.same(r.value, e.value), "the result is that of the drawn seed given explicitly")
            S.check(S.same(r.value["seed"], d.hex()), "the seed drawn is reported")
            ok += 1
    if ok == 2:
        S.reach("done")


@scenario("C23", expect=["done"], bounds="every passphrase and seed; one seed and salt given")
def given(S):
    """nothing is drawn when salt and seed are given"""
    pw = S.text("passphrase")
    salt, seed = S.bytes("salt", 8), S.bytes("seed", 24)
    r = S.call(S.lib.core.BIP38.intermediate_code, pw, owner_salt=salt)
    if r.ok:
        b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
        n = len(S.env())
        x = S.call(b.create_new_encrypted_wif, r.value, seed=seed)
        y = S.call(b.create_new_encrypted_wif, r.value, seed=seed)
        S.check(S.same(x.kind(), y.kind()), "creation with a given seed repeats")
        if x.ok:
            S.check(S.same(x.value, y.value), "creation with a given seed repeats")
            S.check(S.same(x.value["seed"], seed.hex()), "the seed given is used")
            S.reach("done")
