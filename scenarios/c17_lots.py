"""Lot and sequence numbers (C17)."""

BIG = 1 << 40


@scenario("C17", cases=lambda tier: [dict(salt=n, compressed=c) for n in (4, 8) for c in (False, True)], expect=["carried", "refused"],
          bounds="every lot and sequence in -2^40..2^40, every passphrase, salt and seed; one coin")
def range_(S, salt, compressed):
    lot, seq = S.int("lot", -BIG, BIG), S.int("sequence", -BIG, BIG)
    pw, sa, seed = S.text("passphrase"), S.bytes("salt", salt), S.bytes("seed", 24)
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    if not (lot >= 100000 and lot <= 999999 and seq >= 0 and seq <= 4095):
        r = S.call(b.intermediate_code, pw, lot=lot, sequence=seq, owner_salt=sa)
        S.check(r.raised(S.lib.exceptions.Error), "a lot or sequence out of range is refused")
        S.reach("refused")
        return
    S.assume(spec.scalar_ok(spec.pass_factor(pw, spec.owner_entropy(sa, lot, seq), True)))
    S.assume(spec.scalar_ok(spec.sha256d(seed)))
    r = S.call(b.intermediate_code, pw, lot=lot, sequence=seq, owner_salt=sa)
    S.check(r.ok, "a lot and sequence in range are accepted")
    S.check(S.same(r.value, spec.base58check(spec.intermediate_payload(pw, sa, lot, seq))), "the code carries lot and sequence")
    n = S.call(b.create_new_encrypted_wif, r.value, "wif-compressed" if compressed else "wif", seed)
    S.check(n.ok, "creation succeeds")
    d = S.call(b.decrypt, n.value["encrypted_wif"], pw, detail=True)
    S.check(d.ok, "decryption succeeds")
    S.check(S.all(S.same(d.value["lot"], lot), S.same(d.value["sequence"], seq)), "decryption reports lot and sequence")
    c = S.call(b.confirm_code, pw, n.value["confirmation_code"], detail=True)
    S.check(c.ok, "confirmation succeeds")
    S.check(S.all(S.same(c.value["lot"], lot), S.same(c.value["sequence"], seq)), "confirmation reports lot and sequence")
    S.reach("carried")


@scenario("C17", cases=lambda tier: [dict(only=o, salt=n) for o in ("lot", "sequence") for n in (4, 8, None)], expect=["refused"],
          bounds="one of lot and sequence given, every value in -2^40..2^40, with a salt of 4 or 8 bytes or none")
def only_one(S, only, salt):
    kw = {only: S.int(only, -BIG, BIG)}
    if salt is not None:
        kw["owner_salt"] = S.bytes("salt", salt)
    r = S.call(S.lib.core.BIP38.intermediate_code, S.text("passphrase"), **kw)
    S.check(r.raised(S.lib.exceptions.Error), "only one of lot and sequence is refused")
    S.reach("refused")


@scenario("C17", cases=lambda tier: [dict(form=f) for f in ("positional", "none given", "random salt")], expect=["done"],
          bounds="every lot and sequence in range, every passphrase; other ways of passing them")
def forms(S, form):
    lot, seq = S.int("lot", 100000, 999999), S.int("sequence", 0, 4095)
    pw, sa = S.text("passphrase"), S.bytes("salt", 8)
    I = S.lib.core.BIP38.intermediate_code
    if form == "positional":
        r = S.call(I, pw, lot, seq, sa)
    elif form == "none given":
        lot = seq = None
        r = S.call(I, pw, None, None, sa)
    else:
        r = S.call(I, pw, lot, seq)
        sa = S.env()[0][2]
    S.assume(spec.scalar_ok(spec.pass_factor(pw, spec.owner_entropy(sa, lot, seq), lot is not None)))
    S.check(r.ok, "an intermediate code is made")
    S.check(S.same(r.value, spec.base58check(spec.intermediate_payload(pw, sa, lot, seq))), "the code carries lot and sequence, if given")
    S.reach("done")


@scenario("C17", cases=lambda tier: [dict(compressed=c) for c in (False, True)], expect=["done"],
          bounds="every lot and sequence that 20 and 12 bits hold, every passphrase, salt and seed: codes made by other implementations")
def foreign(S, compressed):
    lot, seq = S.int("lot", 0, (1 << 20) - 1), S.int("sequence", 0, 4095)
    pw, sa, seed = S.text("passphrase"), S.bytes("salt", 4), S.bytes("seed", 24)
    factor = spec.pass_factor(pw, spec.owner_entropy(sa, lot, seq), True)
    S.assume(S.all(spec.scalar_ok(factor), spec.scalar_ok(spec.sha256d(seed))))
    enc, cfrm, pub, addr = spec.ec_encrypt(spec.pubkey(factor, True), spec.owner_entropy(sa, lot, seq), True, seed, compressed, 30)
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    d = S.call(b.decrypt, spec.base58check(enc), pw, detail=True)
    S.check(d.ok, "decryption succeeds")
    S.check(S.all(S.same(d.value["lot"], lot), S.same(d.value["sequence"], seq)), "decryption reports lot and sequence")
    c = S.call(b.confirm_code, pw, spec.base58check(cfrm), detail=True)
    S.check(c.ok, "confirmation succeeds")
    S.check(S.all(S.same(c.value["lot"], lot), S.same(c.value["sequence"], seq)), "confirmation reports lot and sequence")
    S.reach("done")
