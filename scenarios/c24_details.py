"""Short and detailed results (C24)."""


def consistent(S, d, wp, ap):
    """private key, WIF, types, public key and address describe one key"""
    key = bytes.fromhex(d["private_key"])
    c = d["wif_type"] == "wif-compressed"
    pub = spec.pubkey(key, c)
    S.check(S.same(d["wif_type"], "wif-compressed" if c else "wif"), "the WIF type is one of the two")
    S.check(S.same(d["public_key_type"], "compressed" if c else "uncompressed"), "WIF type and public key type agree")
    S.check(S.same(d["wif"], spec.wif(key, wp, c)), "the WIF carries the private key with its type")
    S.check(S.same(d["public_key"], pub.hex()), "the public key belongs to the private key")
    S.check(S.same(d["address"], spec.address(pub, ap)), "the address belongs to the public key")


def net(S, override):
    """an instance, the keyword arguments for a call, and the prefixes they stand for"""
    if isinstance(S, spec.Later):
        b = S.network[0]
        return (b, dict(network="testnet"), 239, 111) if override else (b, {}, 128, 30)
    w = dict(wp=128, ap=30, wp2=239, ap2=111)
    b = S.lib.core.BIP38(spec.coin(S.lib, w["wp"], w["ap"], w["wp2"], w["ap2"]))
    if isinstance(S, spec.Earlier):
        S.network = (b,)
    return (b, dict(network="testnet"), 239, 111) if override else (b, {}, 128, 30)


def kinds(tier):
    payloads = ("c0", "e0", "00", "20", "04", "24", "any")
    out = [dict(payload=p, override=o) for i, p in enumerate(payloads) for o in ((bool(i % 2),) if tier == "quick" else (False, True))]
    return out + [dict(payload=p, override=False, earlier=dict(payload=q, override=True)) for p, q in (("c0", "e0"), ("00", "00"), ("24", "20"), ("20", "04"))]


@scenario("C24", cases=kinds, expect=["both", "neither"], bounds="every well-formed encrypted key (36 bytes after prefix and flag; also every EC flag), every passphrase")
@spec.again
def decrypt(S, payload, override):
    pw = S.text("passphrase")
    if payload == "any":
        p = b"\x01\x43" + S.bytes("rest", 37)
    else:
        p = (b"\x01\x42" if payload in ("c0", "e0") else b"\x01\x43") + bytes.fromhex(payload) + S.bytes("rest", 36)
    b, kw, wp, ap = net(S, override)
    e = spec.base58check(p)
    d = S.call(b.decrypt, e, pw, detail=True, **kw)
    s = S.call(b.decrypt, e, pw, **kw)
    t = S.call(b.decrypt, e, pw, detail=False, **kw)
    S.check(S.same([s.kind(), t.kind()], [d.kind(), d.kind()]), "short and detailed decryption succeed and fail together")
    if d.ok and s.ok and t.ok:
        S.check(S.same(s.value, d.value["wif"]), "the short result is the WIF in the detailed result")
        S.check(S.same(t.value, d.value["wif"]), "the short result is the WIF in the detailed result")
        consistent(S, d.value, wp, ap)
        S.reach("both")
    else:
        S.reach("neither")


@scenario("C24", cases=lambda tier: [dict(c, payload=c["payload"]) for c in kinds(tier) if c["payload"] not in ("c0", "e0")], expect=["both", "neither"],
          bounds="every well-formed confirmation code (45 bytes after prefix and flag; also every flag), every passphrase")
@spec.again
def confirm(S, payload, override):
    pw = S.text("passphrase")
    p = bytes.fromhex("643bf6a89a") + (S.bytes("flag", 1) if payload == "any" else bytes.fromhex(payload)) + S.bytes("rest", 45)
    b, kw, wp, ap = net(S, override)
    e = spec.base58check(p)
    d = S.call(b.confirm_code, pw, e, detail=True, **kw)
    s = S.call(b.confirm_code, pw, e, **kw)
    t = S.call(b.confirm_code, pw, e, detail=False, **kw)
    S.check(S.same([s.kind(), t.kind()], [d.kind(), d.kind()]), "short and detailed confirmation succeed and fail together")
    if d.ok and s.ok and t.ok:
        S.check(S.same(s.value, d.value["address"]), "the short result is the address in the detailed result")
        S.check(S.same(t.value, d.value["address"]), "the short result is the address in the detailed result")
        pub = bytes.fromhex(d.value["public_key"])
        S.check(S.same(d.value["public_key_type"], "compressed" if len(pub) == 33 else "uncompressed"), "public key and its type agree")
        S.check(S.same(d.value["address"], spec.address(pub, ap)), "the address belongs to the public key")
        S.reach("both")
    else:
        S.reach("neither")
