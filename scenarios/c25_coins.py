"""Coins, networks and their prefixes (C25)."""
import json
import os

DOCUMENTED = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "coins.json")))


def names(tier):
    return [dict(coin=c) for c in sorted(DOCUMENTED)]


def nets(tier):
    return [dict(coin=c, net=n) for c in sorted(DOCUMENTED) for n in sorted(DOCUMENTED[c])]


def nets_types(tier):
    return [dict(x, compressed=c) for x in nets(tier) for c in ((True,) if tier == "quick" else (False, True))]


@scenario("C25", cases=names, expect=["done"],
          bounds="every documented coin and network: every private key, both WIF types (values by normal form); the networks are exactly the documented ones")
def wif_prefixes(S, coin):
    C = getattr(S.lib.cryptocurrencies, coin)
    S.check(S.same(sorted(C.NETWORKS), sorted(DOCUMENTED[coin])), "the coin has the documented networks")
    key = S.bytes("key", 32)
    for net in DOCUMENTED[coin]:
        for t in ("wif", "wif-compressed"):
            r = S.call(S.lib.wif.private_key_to_wif, key, t, C, net)
            S.check(r.ok, "the WIF is made")
            S.check(S.same(r.value, spec.wif(key, DOCUMENTED[coin][net][0], t != "wif")), "the WIF carries the documented prefix")
    S.reach("done")


@scenario("C25", cases=nets_types, expect=["done"],
          bounds="every documented coin and network: every private key and passphrase; compressed (thorough: and uncompressed)")
def address_prefixes(S, coin, net, compressed):
    C = getattr(S.lib.cryptocurrencies, coin)
    key = S.bytes("key", 32)
    S.assume(spec.scalar_ok(key))
    pw = S.text("passphrase")
    wp, ap = DOCUMENTED[coin][net]
    b = S.lib.core.BIP38(C, net)
    pub = spec.pubkey(key, compressed)
    if coin == "Ripple":                # the alphabet of its addresses: scenario alphabets
        e = S.call(b.encrypt, spec.wif(key, wp, compressed), pw)
        S.check(e.ok, "encryption succeeds")
        d = S.call(b.decrypt, e.value, pw, detail=True)
        S.check(d.ok, "decryption succeeds")
        S.check(S.any(S.same(d.value["address"], spec.address(pub, ap)), S.same(d.value["address"], spec.address(pub, ap, spec.RIPPLE58))),
                "the address carries the documented prefix")
    else:
        d = S.call(b.decrypt, spec.base58check(spec.noec_payload(key, compressed, pw, ap)), pw, detail=True)
        S.check(d.ok, "a key made for the documented address prefix decrypts")
        S.check(S.same(d.value["address"], spec.address(pub, ap)), "the address carries the documented prefix")
    S.check(S.same(d.value["wif"], spec.wif(key, wp, compressed)), "the decrypted WIF carries the documented prefix")
    S.reach("done")


@scenario("C25", cases=nets, expect=["done"],
          bounds="every documented coin and network: every pass factor, entropy and seed, compressed")
def created(S, coin, net):
    if coin == "Ripple":
        S.reach("done")
        return
    k = S.bytes("pass_factor", 32)
    S.assume(spec.scalar_ok(k))
    seed = S.bytes("seed", 24)
    S.assume(spec.scalar_ok(spec.sha256d(seed)))
    code = spec.base58check(spec.MAGIC_NOLOT + S.bytes("entropy", 8) + spec.pubkey(k, True))
    pub = spec.point_times(spec.pubkey(k, True), int.from_bytes(spec.sha256d(seed), "big"), True)
    b = S.lib.core.BIP38(getattr(S.lib.cryptocurrencies, coin))
    r = S.call(b.create_new_encrypted_wif, code, "wif-compressed", seed, net)
    S.check(r.ok, "creation succeeds")
    S.check(S.same(r.value["address"], spec.address(pub, DOCUMENTED[coin][net][1])), "the address carries the documented prefix")
    S.reach("done")


@scenario("C25", cases=lambda tier: [dict(coin=c) for c in ("Bitcoin", "Litecoin", "Ripple")], expect=["done"],
          bounds="every private key and passphrase; the coins that define an alphabet and one that does not")
def alphabets(S, coin):
    key = S.bytes("key", 32)
    S.assume(spec.scalar_ok(key))
    pw = S.text("passphrase")
    C = getattr(S.lib.cryptocurrencies, coin)
    wp, ap = DOCUMENTED[coin]["mainnet"]
    b = S.lib.core.BIP38(C)
    S.check(S.same(b.alphabet, spec.RIPPLE58 if coin == "Ripple" else spec.BITCOIN58), "the instance has the coin's alphabet")
    e = S.call(b.encrypt, spec.wif(key, wp, True), pw)
    S.check(e.ok, "encryption succeeds")
    d = S.call(b.decrypt, e.value, pw, detail=True)
    S.check(d.ok, "decryption succeeds")
    S.check(S.same(d.value["address"], spec.address(spec.pubkey(key, True), ap, spec.RIPPLE58 if coin == "Ripple" else spec.BITCOIN58)),
            "addresses use the coin's alphabet")
    S.reach("done")


@scenario("C25", cases=lambda tier: [dict(compressed=c, reader=r) for c in (False, True) for r in ("key", "type", "checksum", "decode", "encrypt")],
          expect=["refused", "accepted"], bounds="every key, every pair of 1-byte WIF prefixes")
def other_network(S, compressed, reader):
    """a WIF is accepted on a network exactly if its prefix is that network's"""
    key = S.bytes("key", 32)
    S.assume(spec.scalar_ok(key))
    wp, made = S.int("wif_prefix", 0, 255), S.int("prefix_of_the_wif", 0, 255)
    C = spec.coin(S.lib, 17, 30, wp, 111)
    w = spec.wif(key, made, compressed)
    m = S.lib.wif
    r = {"key": lambda: S.call(m.wif_to_private_key, w, C, "testnet"), "type": lambda: S.call(m.get_wif_type, w, C, "testnet"),
         "checksum": lambda: S.call(m.get_wif_checksum, w, cryptocurrency=C, network="testnet"), "decode": lambda: S.call(m.decode_wif, w, wp),
         "encrypt": lambda: S.call(S.lib.core.BIP38(C).encrypt, w, "x", network="testnet")}[reader]()
    if made == wp:
        S.check(r.ok, "a WIF with the network's prefix is accepted")
        S.reach("accepted")
    else:
        S.check(r.raised(S.lib.exceptions.WIFError), "a WIF of another network is refused with the WIF error")
        S.reach("refused")
