"""Decryption and confirmation of arbitrary well-formed inputs (C04, C05)."""


NETS = ("byte", "zero", "wide", "override", "instance")


def kinds(tier, over):
    """each case with one network, or with all"""
    out = [dict(c, net=n) for i, c in enumerate(over) for n in (NETS if tier != "quick" else (NETS[i % 5], NETS[(i + 2) % 5]))]
    fixed = [dict(c, net="fixed") for c in over]
    return out + [dict(x, earlier=y) for i, x in enumerate(fixed) for y in (fixed if tier != "quick" else {0: [x], 1: [x, fixed[i - 1]]}[len(fixed) > 1])]


BOUND = "address prefix 0, 1..255 or 256..65535 (two bytes), WIF prefix 128 or 239, network named by the instance or the call"


@scenario("C04", cases=lambda tier: kinds(tier, [dict(compressed=c) for c in (False, True)]), expect=["key", "wrong", "no scalar"],
          bounds="every 36 bytes after prefix and flag, every passphrase, " + BOUND)
@spec.again
def noec(S, compressed, net):
    pw = S.text("passphrase")
    payload = b"\x01\x42" + (b"\xe0" if compressed else b"\xc0") + S.bytes("rest", 36)
    b, kw, wp, ap = spec.network(S, net)
    key = spec.noec_key(payload, pw)
    d = S.call(b.decrypt, spec.base58check(payload), pw, **kw)
    if not spec.scalar_ok(key):
        S.check(d.raised(S.lib.exceptions.Error), "no key is returned for an impossible private key")
        S.reach("no scalar")
    elif spec.address_hash(spec.address(spec.pubkey(key, compressed), ap)) == payload[3:7]:
        S.check(d.ok, "the right passphrase decrypts")
        S.check(S.same(d.value, spec.wif(key, wp, compressed)), "the key of the stored address hash is returned")
        S.reach("key")
    else:
        S.check(d.raised(S.lib.exceptions.PassphraseError), "a different address hash is an incorrect passphrase")
        S.reach("wrong")


FLAG = [(False, False), (True, False), (False, True), (True, True)]


@scenario("C04", cases=lambda tier: kinds(tier, [dict(compressed=c, with_lot=l) for c, l in FLAG]),
          expect=["key", "wrong", "no pass factor", "no factor"],
          bounds="every 36 bytes after prefix and one of the 4 defined flags, every passphrase, " + BOUND)
@spec.again
def ec(S, compressed, with_lot, net):
    pw = S.text("passphrase")
    payload = b"\x01\x43" + spec.ec_flag(compressed, with_lot) + S.bytes("rest", 36)
    b, kw, wp, ap = spec.network(S, net)
    factor = spec.pass_factor(pw, payload[7:15], with_lot)
    d = S.call(b.decrypt, spec.base58check(payload), pw, detail=True, **kw)
    if not spec.scalar_ok(factor):
        S.check(d.raised(S.lib.exceptions.Error), "no key is returned for an impossible pass factor")
        S.reach("no pass factor")
        return
    seed = spec.ec_seed(payload, spec.pubkey(factor, True))
    fb = spec.sha256d(seed)
    if not spec.scalar_ok(fb):
        S.check(d.raised(S.lib.exceptions.Error), "no key is returned for an impossible factor")
        S.reach("no factor")
        return
    key = (int.from_bytes(factor, "big") * int.from_bytes(fb, "big") % spec.ORDER).to_bytes(32, "big")
    if spec.address_hash(spec.address(spec.pubkey(key, compressed), ap)) == payload[3:7]:
        S.check(d.ok, "the right passphrase decrypts")
        S.check(S.same(d.value["wif"], spec.wif(key, wp, compressed)), "the key of the stored address hash is returned")
        S.check(S.same(d.value["seed"], seed.hex()), "the seed in the encrypted key is returned")
        S.reach("key")
    else:
        S.check(d.raised(S.lib.exceptions.PassphraseError), "a different address hash is an incorrect passphrase")
        S.reach("wrong")


@scenario("C04", cases=lambda tier: kinds(tier, [{}]), expect=["key", "error"],
          bounds="every 37 bytes after the EC prefix (every flag byte), every passphrase, " + BOUND)
@spec.again
def any_flag(S, net):
    """undefined flags: whatever the flag is taken to mean, a returned key has the stored address hash"""
    pw = S.text("passphrase")
    payload = b"\x01\x43" + S.bytes("rest", 37)
    b, kw, wp, ap = spec.network(S, net)
    d = S.call(b.decrypt, spec.base58check(payload), pw, detail=True, **kw)
    if d.ok:
        key = bytes.fromhex(d.value["private_key"])
        c = d.value["wif_type"] == "wif-compressed"
        S.check(S.same(spec.address_hash(spec.address(spec.pubkey(key, c), ap)), payload[3:7]), "a returned key has the stored address hash")
        S.check(S.same(d.value["wif"], spec.wif(key, wp, c)), "the WIF is that of the returned key")
        S.reach("key")
    else:
        S.check(d.raised(S.lib.exceptions.Error), "a refusal is a library error")
        S.reach("error")


@scenario("C05", cases=lambda tier: kinds(tier, [dict(compressed=c, with_lot=l) for c, l in FLAG]),
          expect=["address", "wrong", "no pass factor", "no point"],
          bounds="every 45 bytes after prefix and one of the 4 defined flags, every passphrase, " + BOUND)
@spec.again
def confirm(S, compressed, with_lot, net):
    pw = S.text("passphrase")
    payload = bytes.fromhex("643bf6a89a") + spec.ec_flag(compressed, with_lot) + S.bytes("rest", 45)
    b, kw, wp, ap = spec.network(S, net)
    factor = spec.pass_factor(pw, payload[10:18], with_lot)
    d = S.call(b.confirm_code, pw, spec.base58check(payload), **kw)
    if not spec.scalar_ok(factor):
        S.check(d.raised(S.lib.exceptions.Error), "nothing is confirmed for an impossible pass factor")
        S.reach("no pass factor")
        return
    point = spec.cfrm_point(payload, spec.pubkey(factor, True))
    if not spec.on_curve(point):
        S.check(d.raised(S.lib.exceptions.PassphraseError), "an invalid point is an incorrect passphrase")
        S.reach("no point")
        return
    addr = spec.address(spec.point_times(point, int.from_bytes(factor, "big"), compressed), ap)
    if spec.address_hash(addr) == payload[6:10]:
        S.check(d.ok, "the right passphrase confirms")
        S.check(S.same(d.value, addr), "the address of point and passphrase is returned")
        S.reach("address")
    else:
        S.check(d.raised(S.lib.exceptions.PassphraseError), "a different address hash is an incorrect passphrase")
        S.reach("wrong")


@scenario("C05", cases=lambda tier: kinds(tier, [{}]), expect=["address", "error"],
          bounds="every 46 bytes after the prefix (every flag byte), every passphrase, " + BOUND)
@spec.again
def confirm_any_flag(S, net):
    pw = S.text("passphrase")
    payload = bytes.fromhex("643bf6a89a") + S.bytes("rest", 46)
    b, kw, wp, ap = spec.network(S, net)
    d = S.call(b.confirm_code, pw, spec.base58check(payload), **kw)
    if d.ok:
        S.check(S.same(spec.address_hash(d.value), payload[6:10]), "a confirmed address has the stored hash")
        S.reach("address")
    else:
        S.check(d.raised(S.lib.exceptions.Error), "a refusal is a library error")
        S.reach("error")
