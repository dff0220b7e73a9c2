"""EC multiplication: intermediate codes (C14), creation (C15), decryption (C02), confirmation (C03), lots (C17)."""


FORMS = ("bytes", "hex", "HEX")


def kinds(tier):
    """compression, lot and sequence given with which salt length, network and address prefix, form of salt and seed"""
    lots = [(c, l) for c in (False, True) for l in (0, 8, 4)]
    nets = [("byte", "bytes"), ("zero", "hex"), ("wide", "HEX"), ("override", "bytes"), ("instance", "hex")]
    if tier == "quick":
        pairs = zip(lots * 2, nets + [n for n in nets * 2 if n[0] != "zero"])
    else:
        pairs = [(x, n) for x in lots for n in nets]
    out = [dict(compressed=c, lots=l, net=n, form=f) for (c, l), (n, f) in pairs]
    fixed = [dict(compressed=c, lots=l, net="fixed", form="bytes") for c, l in lots]
    pairs = zip(fixed + fixed, fixed + fixed[1:] + fixed[:1]) if tier == "quick" else [(x, y) for x in fixed for y in fixed]
    return out + [dict(x, earlier=y) for x, y in pairs]


NETS = ("address prefix 0, 1..255 or 256..65535 (two bytes), WIF prefix 128 or 239, network named by the instance or the call; "
        "salt and seed as bytes, hexadecimal or upper-case hexadecimal")


def intermediate(S, lots, form):
    """salt and lot inputs -> (keyword arguments of intermediate_code, salt, owner entropy, lot, sequence)"""
    salt = S.bytes("salt", lots or 8)
    if not lots:
        return dict(owner_salt=spec.form(salt, form)), salt, spec.owner_entropy(salt), None, None
    lot, seq = S.int("lot", 100000, 999999), S.int("sequence", 0, 4095)
    return dict(owner_salt=spec.form(salt, form), lot=lot, sequence=seq), salt, spec.owner_entropy(salt, lot, seq), lot, seq


@scenario("C14", cases=lambda tier: [dict(lots=n, form=f) for n in (0, 8, 4) for f in FORMS] +
          [dict(lots=n, form="bytes", earlier=dict(lots=m, form="bytes")) for n in (0, 8, 4) for m in (0, 8, 4)], expect=["done", "refused"],
          bounds="every passphrase, salt, lot in 100000..999999 and sequence in 0..4095")
@spec.again
def intermediate_format(S, lots, form):
    pw = S.text("passphrase")
    kw, salt, entropy, lot, seq = intermediate(S, lots, form)
    factor = spec.pass_factor(pw, entropy, bool(lots))
    r = S.call(S.lib.core.BIP38.intermediate_code, pw, **kw)
    if spec.scalar_ok(factor):
        S.check(r.ok, "an intermediate code is made")
        S.check(S.same(r.value, spec.base58check(spec.intermediate_payload(pw, salt, lot, seq))),
                "the intermediate code is the one BIP38 defines")
        S.reach("done")
    else:
        S.check(r.raised(S.lib.exceptions.Error), "a pass factor that is no private key is refused with a library error")
        S.reach("refused")


@scenario("C15", cases=kinds, expect=["done"],
          bounds="every pass point that is a multiple of the generator, entropy, seed, " + NETS)
@spec.again
def create_format(S, compressed, lots, net, form):
    """creation from any valid intermediate code"""
    k = S.bytes("pass_factor", 32)
    S.assume(spec.scalar_ok(k))
    point = spec.pubkey(k, True)
    entropy, seed = S.bytes("entropy", 8), S.bytes("seed", 24)
    S.assume(spec.scalar_ok(spec.sha256d(seed)))
    b, net_kw, wp, ap = spec.network(S, net)
    code = spec.base58check((spec.MAGIC_LOT if lots else spec.MAGIC_NOLOT) + entropy + point)
    r = S.call(b.create_new_encrypted_wif, code, "wif-compressed" if compressed else "wif", spec.form(seed, form), **net_kw)
    S.check(r.ok, "creation succeeds")
    enc, cfrm, pub, addr = spec.ec_encrypt(point, entropy, bool(lots), seed, compressed, ap)
    S.check(S.same(r.value["encrypted_wif"], spec.base58check(enc)), "the encrypted key is the one BIP38 defines")
    S.check(S.same(r.value["confirmation_code"], spec.base58check(cfrm)), "the confirmation code is the one BIP38 defines")
    S.check(S.same(r.value, dict(r.value, public_key=pub.hex(), address=addr, seed=seed.hex(),
                                 public_key_type="compressed" if compressed else "uncompressed")),
            "public key, type, seed and address are announced")
    S.reach("done")


def made(S, compressed, lots, net, form):
    """an encrypted key and confirmation code made from symbolic inputs by the library"""
    pw = S.text("passphrase")
    kw, salt, entropy, lot, seq = intermediate(S, lots, form)
    S.assume(spec.scalar_ok(spec.pass_factor(pw, entropy, bool(lots))))
    seed = S.bytes("seed", 24)
    S.assume(spec.scalar_ok(spec.sha256d(seed)))
    b, net_kw, wp, ap = spec.network(S, net)
    i = S.call(b.intermediate_code, pw, **kw)
    S.check(i.ok, "an intermediate code is made")
    r = S.call(b.create_new_encrypted_wif, i.value, "wif-compressed" if compressed else "wif", spec.form(seed, form), **net_kw)
    S.check(r.ok, "creation succeeds")
    return b, net_kw, wp, pw, r.value, seed, lot, seq


@scenario("C02", cases=kinds, expect=["done"],
          bounds="every passphrase, salt, lot, sequence and seed; "+NETS)
@spec.again
def decrypts(S, compressed, lots, net, form):
    b, net_kw, wp, pw, r, seed, lot, seq = made(S, compressed, lots, net, form)
    d = S.call(b.decrypt, r["encrypted_wif"], pw, detail=True, **net_kw)
    S.check(d.ok, "decryption succeeds")
    d = d.value
    S.check(S.same(dict(d, wif=0, private_key=0), dict(
        wif=0, private_key=0, wif_type="wif-compressed" if compressed else "wif", public_key=r["public_key"],
        public_key_type=r["public_key_type"], seed=r["seed"], address=r["address"], lot=lot, sequence=seq)),
        "the announced key with its seed, lot and sequence")
    S.check(S.same(d["seed"], seed.hex()), "the seed is the one given")
    key = bytes.fromhex(d["private_key"])
    S.check(S.same(spec.pubkey(key, compressed).hex(), r["public_key"]), "the private key belongs to the announced public key")
    S.check(S.same(d["wif"], spec.wif(key, wp, compressed)), "the WIF carries that private key")
    S.reach("done")


@scenario("C03", cases=kinds, expect=["done"],
          bounds="every passphrase, salt, lot, sequence and seed; " + NETS)
@spec.again
def confirms(S, compressed, lots, net, form):
    b, net_kw, wp, pw, r, seed, lot, seq = made(S, compressed, lots, net, form)
    d = S.call(b.confirm_code, pw, r["confirmation_code"], **net_kw)
    S.check(d.ok, "confirmation succeeds")
    S.check(S.same(d.value, r["address"]), "the announced address is confirmed")
    d = S.call(b.confirm_code, pw, r["confirmation_code"], detail=True, **net_kw)
    S.check(d.ok, "detailed confirmation succeeds")
    S.check(S.same(d.value, dict(public_key=r["public_key"], public_key_type=r["public_key_type"], address=r["address"],
                                 lot=lot, sequence=seq)), "the announced key with lot and sequence is confirmed")
    S.reach("done")


@scenario("C15", cases=kinds, expect=["done"],
          bounds="every pass factor entropy, passphrase and seed: keys and codes made by the specification; " + NETS)
@spec.again
def foreign(S, compressed, lots, net, form):
    pw = S.text("passphrase")
    entropy, seed = S.bytes("entropy", 8), S.bytes("seed", 24)
    factor = spec.pass_factor(pw, entropy, bool(lots))
    fb = spec.sha256d(seed)
    S.assume(S.all(spec.scalar_ok(factor), spec.scalar_ok(fb)))
    b, net_kw, wp, ap = spec.network(S, net)
    enc, cfrm, pub, addr = spec.ec_encrypt(spec.pubkey(factor, True), entropy, bool(lots), seed, compressed, ap)
    key = (int.from_bytes(factor, "big") * int.from_bytes(fb, "big") % spec.ORDER).to_bytes(32, "big")
    n = int.from_bytes(entropy[4:], "big")
    kind = "compressed" if compressed else "uncompressed"
    lot, seq = (n // 4096, n % 4096) if lots else (None, None)
    d = S.call(b.decrypt, spec.base58check(enc), pw, detail=True, **net_kw)
    S.check(d.ok, "a key made by the specification decrypts")
    S.check(S.same(d.value, dict(
        wif=spec.wif(key, wp, compressed), private_key=key.hex(), wif_type="wif-compressed" if compressed else "wif",
        public_key=pub.hex(), public_key_type=kind, seed=seed.hex(), address=addr, lot=lot, sequence=seq)),
        "it decrypts to the specified key")
    c = S.call(b.confirm_code, pw, spec.base58check(cfrm), detail=True, **net_kw)
    S.check(c.ok, "a code made by the specification confirms")
    S.check(S.same(c.value, dict(public_key=pub.hex(), public_key_type=kind, address=addr, lot=lot, sequence=seq)),
            "it confirms the specified key")
    S.reach("done")
