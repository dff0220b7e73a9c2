"""WIF encoding (C08)."""


@scenario("C08", cases=lambda tier: [dict(form=f) for f in ("bytes", "hex", "HEX")] +
          spec.twice([dict(form=f, prefixes=(128, 129)) for f in ("bytes", "hex", "HEX")]), expect=["done"],
          bounds="every 32-byte private key, given as bytes or hexadecimal text, every 1-byte prefix")
@spec.again
def encode_decode(S, form, prefixes=(0, 255)):
    key = S.bytes("key", 32)
    wp = S.int("wif_prefix", *prefixes)
    given = key if form == "bytes" else key.hex() if form == "hex" else key.hex().upper()
    r = S.call(S.lib.wif.encode_wif, given, wp)
    S.check(r.ok, "encoding succeeds")
    plain, comp = spec.wif(key, wp, False), spec.wif(key, wp, True)
    S.check(S.same(r.value, (plain, comp)), "both WIF forms are the specified ones")
    for text, kind in ((plain, "wif"), (comp, "wif-compressed")):
        d = S.call(S.lib.wif.decode_wif, text, wp)
        S.check(d.ok, "decoding succeeds")
        payload = bytes([wp]) + key + (b"\x01" if kind == "wif-compressed" else b"")
        S.check(S.same(d.value, (key, kind, spec.sha256d(payload)[:4])), "key, type and checksum come back")
    S.reach("done")


@scenario("C08", cases=lambda tier: [dict(compressed=c, net=n) for c in (False, True) for n in ("mainnet", "testnet", None)] +
          spec.twice([dict(compressed=c, net=n, prefixes=(128, 129)) for c in (False, True) for n in ("mainnet", "testnet", None)]), expect=["done"],
          bounds="every 32-byte private key, every 1-byte prefix of a coin's two networks")
@spec.again
def helpers(S, compressed, net, prefixes=(0, 255)):
    key = S.bytes("key", 32)
    wp, wp2 = S.int("wif_prefix", *prefixes), S.int("wif_prefix2", *prefixes)
    coin = spec.coin(S.lib, wp, 30, wp2, 31)
    m = S.lib.wif
    kind = "wif-compressed" if compressed else "wif"
    p = wp2 if net == "testnet" else wp
    kw = dict(cryptocurrency=coin) if net is None else dict(cryptocurrency=coin, network=net)
    r = S.call(m.private_key_to_wif, key, kind, **kw)
    S.check(r.ok, "encoding succeeds")
    S.check(S.same(r.value, spec.wif(key, p, compressed)), "the WIF is the specified one")
    payload = bytes([p]) + key + (b"\x01" if compressed else b"")
    for f, want in (("wif_to_private_key", key.hex()), ("get_wif_type", kind), ("get_wif_checksum", spec.sha256d(payload)[:4].hex())):
        d = S.call(getattr(m, f), r.value, **kw)
        S.check(d.ok, f + " succeeds")
        S.check(S.same(d.value, want), f + " returns what was encoded")
    S.reach("done")


@scenario("C08", expect=["done"], bounds="every 32-byte private key; the default prefix, coin, network and type")
def defaults(S):
    key = S.bytes("key", 32)
    m = S.lib.wif
    S.check(S.same(S.call(m.private_key_to_wif, key).value, spec.wif(key, 0x80, True)), "Bitcoin mainnet, compressed, by default")
    r = S.call(m.encode_wif, key)
    S.check(S.same(r.value, (spec.wif(key, 0x80, False), spec.wif(key, 0x80, True))), "the Bitcoin mainnet prefix by default")
    d = S.call(m.decode_wif, r.value[0])
    S.check(S.same(d.value[0], key), "decoding with the Bitcoin mainnet prefix by default")
    S.reach("done")
