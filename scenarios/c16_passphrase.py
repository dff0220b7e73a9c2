"""Passphrases and Unicode normalisation (C16)."""


def kinds(tier):
    return [dict(compressed=c) for c in (False, True)]


@scenario("C16", cases=kinds, expect=["done"],
          bounds="any two passphrases with one NFC form, every key; one coin")
def noec(S, compressed):
    key = S.bytes("key", 32)
    S.assume(spec.scalar_ok(key))
    p, q = S.equivalent_texts("passphrase")
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    w = spec.wif(key, 128, compressed)
    e, f = S.call(b.encrypt, w, p), S.call(b.encrypt, w, q)
    S.check(S.all(e.ok, f.ok), "encryption succeeds with both")
    S.check(S.same(e.value, f.value), "both give the same encrypted key")
    S.check(S.same(e.value, spec.base58check(spec.noec_payload(key, compressed, p, 30))),
            "the passphrase enters the derivation as its NFC form, otherwise unaltered")
    d = S.call(b.decrypt, e.value, q)
    S.check(d.ok, "one opens what the other made")
    S.check(S.same(d.value, w), "the same key is decrypted")
    S.reach("done")


@scenario("C16", cases=lambda tier: [dict(compressed=c, lots=l) for c in (False, True) for l in (0, 8, 4)], expect=["done"],
          bounds="any three passphrases with one NFC form, every salt, lot, sequence and seed; one coin")
def ec(S, compressed, lots):
    p, q, t = S.equivalent_texts("passphrase", 3)
    salt, seed = S.bytes("salt", lots or 8), S.bytes("seed", 24)
    kw, lot, seq = dict(owner_salt=salt), None, None
    if lots:
        lot, seq = S.int("lot", 100000, 999999), S.int("sequence", 0, 4095)
        kw = dict(kw, lot=lot, sequence=seq)
    S.assume(spec.scalar_ok(spec.pass_factor(p, spec.owner_entropy(salt, lot, seq), bool(lots))))
    S.assume(spec.scalar_ok(spec.sha256d(seed)))
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    i, j = S.call(b.intermediate_code, p, **kw), S.call(b.intermediate_code, q, **kw)
    S.check(S.all(i.ok, j.ok), "both give an intermediate code")
    S.check(S.same(i.value, j.value), "both give the same intermediate code")
    S.check(S.same(i.value, spec.base58check(spec.intermediate_payload(t, salt, lot, seq))),
            "the passphrase enters the derivation as its NFC form, otherwise unaltered")
    r = S.call(b.create_new_encrypted_wif, i.value, "wif-compressed" if compressed else "wif", seed)
    S.check(r.ok, "creation succeeds")
    d, e = S.call(b.decrypt, r.value["encrypted_wif"], q, detail=True), S.call(b.decrypt, r.value["encrypted_wif"], t, detail=True)
    S.check(S.all(d.ok, e.ok), "the others decrypt")
    S.check(S.same(d.value, e.value), "the others decrypt to the same result")
    S.check(S.same(d.value["address"], r.value["address"]), "the others decrypt to the announced address")
    c, e = S.call(b.confirm_code, q, r.value["confirmation_code"]), S.call(b.confirm_code, t, r.value["confirmation_code"])
    S.check(S.all(c.ok, e.ok), "the others confirm")
    S.check(S.all(S.same(c.value, r.value["address"]), S.same(e.value, r.value["address"])), "the others confirm the announced address")
    S.reach("done")


@scenario("C16", cases=lambda tier: [dict(n=n) for n in ((0, 1, 8, 64, 65) if tier == "quick" else list(range(0, 20)) + [63, 64, 65, 100, 200])],
          expect=["done"], bounds="every ASCII passphrase of the listed lengths, control characters included; one key")
def ascii(S, n):
    pw = S.chars("passphrase", n, 0, 127)
    key = bytes(range(1, 33))
    w = spec.wif(key, 128, True)
    b = S.lib.core.BIP38(S.lib.cryptocurrencies.Bitcoin)
    e = S.call(b.encrypt, w, pw)
    S.check(e.ok, "encryption succeeds")
    S.check(S.same(e.value, spec.base58check(spec.noec_payload(key, True, pw, 0))), "the passphrase enters the derivation unaltered")
    d = S.call(b.decrypt, e.value, pw)
    S.check(d.ok, "decryption succeeds")
    S.check(S.same(d.value, w), "the key comes back")
    salt = bytes(range(8))
    S.assume(spec.scalar_ok(spec.pass_factor(pw, salt, False)))
    i = S.call(b.intermediate_code, pw, owner_salt=salt)
    S.check(i.ok, "an intermediate code is made")
    S.check(S.same(i.value, spec.base58check(spec.intermediate_payload(pw, salt))), "the intermediate code uses the passphrase unaltered")
    S.reach("done")
