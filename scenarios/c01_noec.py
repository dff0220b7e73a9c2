"""Encryption without EC multiplication (C01, C13)."""


def forms(tier):
    """WIF and address prefixes: each over its whole range while the other is in a smaller one; the whole product in the
    thorough tier"""
    ranges = [((0, 255), (1, 255)), ((128, 128), (0, 0xffff))] if tier == "quick" else [((0, 255), (0, 0xffff))]
    out = [dict(compressed=c, wif_range=w, address_range=a) for c in (False, True) for w, a in ranges]
    one = [dict(compressed=c, wif_range=(128, 128), address_range=(30, 30)) for c in (False, True)]
    return out + [dict(c, earlier=d) for c in one for d in one]


def full(w, key, compressed, wp, ap):
    """the detailed decryption result of a non-EC key"""
    pub = spec.pubkey(key, compressed)
    return dict(wif=w, private_key=key.hex(), wif_type="wif-compressed" if compressed else "wif", public_key=pub.hex(),
                public_key_type="compressed" if compressed else "uncompressed", seed=None, address=spec.address(pub, ap),
                lot=None, sequence=None)


@scenario("C01", cases=forms, expect=["done"],
          bounds="every key in 1..order-1, every 1-byte WIF prefix, every 1- and 2-byte address prefix, every passphrase")
@spec.again
def roundtrip(S, compressed, wif_range, address_range):
    key = S.bytes("key", 32)
    S.assume(spec.scalar_ok(key))
    pw = S.text("passphrase")
    b, kw, wp, ap = spec.network(S, (wif_range, address_range))
    w = spec.wif(key, wp, compressed)
    e = S.call(b.encrypt, w, pw)
    S.check(e.ok, "encryption succeeds")
    d = S.call(b.decrypt, e.value, pw)
    S.check(d.ok, "decryption succeeds")
    S.check(S.same(d.value, w), "decryption returns the WIF")
    d = S.call(b.decrypt, e.value, pw, detail=True)
    S.check(d.ok, "detailed decryption succeeds")
    S.check(S.same(d.value, full(w, key, compressed, wp, ap)), "the detailed result describes the key")
    S.reach("done")


@scenario("C01", cases=lambda tier: [dict(compressed=c, net=n) for c in (False, True) for n in ("mainnet", "testnet")],
          expect=["done"], bounds="a coin with two networks, the second given per call; prefixes symbolic")
def roundtrip_network(S, compressed, net):
    key = S.bytes("key", 32)
    S.assume(spec.scalar_ok(key))
    wp, wp2 = S.int("wif_prefix", 128, 128), S.int("wif_prefix2", 0, 255)
    ap, ap2 = S.int("address_prefix", 1, 1), S.int("address_prefix2", 1, 255)
    pw = S.text("passphrase")
    b = S.lib.core.BIP38(spec.coin(S.lib, wp, ap, wp2, ap2), "mainnet" if net == "testnet" else "testnet")
    w = spec.wif(key, wp2 if net == "testnet" else wp, compressed)
    e = S.call(b.encrypt, w, pw, network=net)
    S.check(e.ok, "encryption succeeds")
    d = S.call(b.decrypt, e.value, pw, network=net, detail=True)
    S.check(d.ok, "decryption succeeds")
    S.check(S.same(d.value, full(w, key, compressed, wp2 if net == "testnet" else wp, ap2 if net == "testnet" else ap)),
            "the detailed result describes the key")
    S.reach("done")


@scenario("C13", cases=forms, expect=["done"],
          bounds="every key in 1..order-1, every 1-byte WIF prefix, every 1- and 2-byte address prefix, every passphrase")
@spec.again
def format(S, compressed, wif_range, address_range):
    key = S.bytes("key", 32)
    S.assume(spec.scalar_ok(key))
    pw = S.text("passphrase")
    b, kw, wp, ap = spec.network(S, (wif_range, address_range))
    e = S.call(b.encrypt, spec.wif(key, wp, compressed), pw)
    S.check(e.ok, "encryption succeeds")
    S.check(S.same(e.value, spec.base58check(spec.noec_payload(key, compressed, pw, ap))),
            "the encrypted key is the one BIP38 defines")
    S.reach("done")


@scenario("C13", cases=forms, expect=["done"],
          bounds="every key in 1..order-1, every 1-byte WIF prefix, every 1- and 2-byte address prefix, every passphrase")
@spec.again
def foreign(S, compressed, wif_range, address_range):
    """keys made by the specification decrypt"""
    key = S.bytes("key", 32)
    S.assume(spec.scalar_ok(key))
    pw = S.text("passphrase")
    b, kw, wp, ap = spec.network(S, (wif_range, address_range))
    d = S.call(b.decrypt, spec.base58check(spec.noec_payload(key, compressed, pw, ap)), pw)
    S.check(d.ok, "a key made by the specification decrypts")
    S.check(S.same(d.value, spec.wif(key, wp, compressed)), "it decrypts to its WIF")
    S.reach("done")
