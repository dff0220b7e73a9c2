"""Refusal of invalid arguments (C18)."""


def given(data, form):
    return data if form == "bytes" else data.hex() if form == "hex" else data.hex().upper()


def lens(tier, hi):
    return range(1, hi) if tier == "quick" else range(1, 2 * hi)


@scenario("C18", cases=lambda tier: [dict(n=n, form=f, lot=l) for n in lens(tier, 14) for f in ("bytes", "hex") for l in (False, True)],
          expect=["refused", "accepted"], bounds="salts of the listed lengths as bytes or hexadecimal text, with and without lot and sequence")
def salts(S, n, form, lot):
    sa = S.bytes("salt", n)
    kw = dict(owner_salt=given(sa, form))
    lt = sq = None
    if lot:
        lt, sq = S.int("lot", 100000, 999999), S.int("sequence", 0, 4095)
        kw = dict(kw, lot=lt, sequence=sq)
    pw = S.text("passphrase")
    if n == 8 or n == 4 and lot:
        S.assume(spec.scalar_ok(spec.pass_factor(pw, spec.owner_entropy(sa, lt, sq), lot)))
        r = S.call(S.lib.core.BIP38.intermediate_code, pw, **kw)
        S.check(r.ok, "a salt of the right length is accepted")
        S.check(S.same(r.value, spec.base58check(spec.intermediate_payload(pw, sa, lt, sq))), "the salt given is used")
        S.reach("accepted")
    else:
        r = S.call(S.lib.core.BIP38.intermediate_code, pw, **kw)
        S.check(r.raised(S.lib.exceptions.Error), "a salt of another length is refused with a library error")
        S.reach("refused")


def code(S):
    """a valid intermediate code"""
    return "passphraseb7ruSNDGP7cmnFHQpmos7TeAy26AFN4GyRTBqq6hiaFbQzQBvirD9oHsafQvzd"


@scenario("C18", cases=lambda tier: [dict(n=n, form=f) for n in lens(tier, 34) for f in ("bytes", "hex")],
          expect=["refused", "accepted"], bounds="seeds of the listed lengths as bytes or hexadecimal text")
def seeds(S, n, form):
    seed = S.bytes("seed", n)
    b = S.lib.core.BIP38(S.lib.cryptocurrencies.Bitcoin)
    if n == 24:
        S.assume(spec.scalar_ok(spec.sha256d(seed)))
    r = S.call(b.create_new_encrypted_wif, code(S), "wif", given(seed, form))
    if n == 24:
        S.check(r.ok, "a seed of 24 bytes is accepted")
        S.check(S.same(r.value["seed"], seed.hex()), "the seed given is used")
        S.reach("accepted")
    else:
        S.check(r.raised(S.lib.exceptions.Error), "a seed of another length is refused with a library error")
        S.reach("refused")


@scenario("C18", cases=lambda tier: [dict(n=n, form=f) for n in lens(tier, 40) for f in ("bytes", "hex")],
          expect=["refused", "accepted"], bounds="private keys of the listed lengths as bytes or hexadecimal text")
def keys(S, n, form):
    key = S.bytes("key", n)
    m, E = S.lib.wif, S.lib.exceptions.Secp256k1Error
    rs = [S.call(m.encode_wif, given(key, form), 128)] + [S.call(m.private_key_to_wif, given(key, form), t) for t in ("wif", "wif-compressed")]
    if form == "bytes" and n != 32:
        rs.append(S.call(S.lib.secp256k1.PrivateKey.from_bytes, key))
    for r in rs:
        S.check(r.ok if n == 32 else r.raised(E), "a private key is accepted if and only if it has 32 bytes")
    S.reach("accepted" if n == 32 else "refused")


@scenario("C18", cases=lambda tier: [dict(n=n) for n in ((0, 1, 3, 14) if tier == "quick" else range(0, 18))], expect=["refused"],
          bounds="every text of the listed lengths but the two WIF types")
def wif_types(S, n):
    t = S.chars("wif_type", n)
    S.assume(S.no(S.any(S.same(t, "wif"), S.same(t, "wif-compressed"))))
    E = S.lib.exceptions.WIFError
    S.check(S.call(S.lib.wif.private_key_to_wif, bytes(range(1, 33)), t).raised(E), "private_key_to_wif refuses another WIF type")
    b = S.lib.core.BIP38(S.lib.cryptocurrencies.Bitcoin)
    S.check(S.call(b.create_new_encrypted_wif, code(S), t, bytes(range(24))).raised(E), "creation refuses another WIF type")
    S.reach("refused")


@scenario("C18", cases=lambda tier: [dict(n=n, op=o) for n in ((1, 4, 7) if tier == "quick" else range(1, 16))
                                     for o in ("new", "encrypt", "decrypt", "decrypt ec", "confirm", "create")], expect=["refused"],
          bounds="every non-empty text of the listed lengths but the coin's networks")
def networks(S, n, op):
    net = S.chars("network", n)
    S.assume(S.no(S.any(*[S.same(net, k) for k in S.lib.cryptocurrencies.Bitcoin.NETWORKS])))
    C, E = S.lib.cryptocurrencies.Bitcoin, S.lib.exceptions.NetworkError
    if op == "new":
        r = S.call(S.lib.core.BIP38, C, net)
    else:
        b = S.lib.core.BIP38(C)
        if op == "encrypt":
            r = S.call(b.encrypt, "L44B5gGEpqEDRS9vVPz7QT35jcBG2r3CZwSwQ4fCewXAhAhqGVpP", "x", net)
        elif op == "decrypt":
            r = S.call(b.decrypt, "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "x", net)
        elif op == "decrypt ec":
            r = S.call(b.decrypt, "6PfQu77ygVyJLZjfvMLyhLMQbYnu5uguoJJ4kMCLqWwPEdfpwANVS76gTX", "x", network=net)
        elif op == "confirm":
            r = S.call(b.confirm_code, "x", "cfrm38V5ahB3qWUn1ECfJPrEpBjHi9FsZDRmPZA1mBuqDLQyG9CjZGvjkEnPYHjRULEJ2nCmUUT", net)
        else:
            r = S.call(b.create_new_encrypted_wif, code(S), "wif", bytes(range(24)), net)
    S.check(r.raised(E), "an unknown network is refused with the network error")
    S.reach("refused")


@scenario("C18", cases=lambda tier: [dict(which=w) for w in ("BIP38", "exception", "int", "object", "type", "dict", "own", "str", "P2PKHAddress")],
          expect=["refused"], bounds="a selection of classes that are not coin classes")
def coins(S, which):
    class Own:
        NETWORKS = {"mainnet": {"wif_prefix": 128, "address_prefix": 0}}
        ALPHABET = None
    c = {"BIP38": S.lib.core.BIP38, "exception": S.lib.exceptions.Error, "int": int, "object": object, "type": type, "dict": dict,
         "own": Own, "str": str, "P2PKHAddress": S.lib.p2pkh_address.P2PKHAddress}[which]
    S.check(S.call(S.lib.core.BIP38, c).raised(S.lib.exceptions.CryptocurrencyError), "a class that is no coin is refused")
    S.reach("refused")


@scenario("C18", cases=lambda tier: [dict(net=n) for n in ("mainnet", "testnet")], expect=["refused"],
          bounds="a coin without the network asked for")
def missing_network(S, net):
    class One(S.lib.cryptocurrencies.ICryptocurrency):
        NETWORKS = {"testnet" if net == "mainnet" else "mainnet": {"wif_prefix": S.int("wif_prefix", 0, 255), "address_prefix": 30}}
    E = S.lib.exceptions.NetworkError
    S.check(S.call(S.lib.core.BIP38, One, net).raised(E), "a network the coin does not have is refused")
    b = S.lib.core.BIP38(One, "testnet" if net == "mainnet" else "mainnet")
    S.check(S.call(b.encrypt, "L44B5gGEpqEDRS9vVPz7QT35jcBG2r3CZwSwQ4fCewXAhAhqGVpP", "y", network=net).raised(E), "encryption refuses a network the coin does not have")
    S.check(S.call(b.decrypt, "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "y", network=net).raised(E), "decryption refuses a network the coin does not have")
    S.reach("refused")
