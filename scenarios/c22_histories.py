"""Independence of calls (C22): the same operation in a fresh package and after a history."""


def coin2(lib, w):
    return spec.coin(lib, w["wp"], w["ap"], w["wp2"], w["ap2"])


# operations: inputs they use, whether they take a network, and the call
def do_intermediate(lib, b, w, net):
    return (lib.core.BIP38.intermediate_code, w["pw"]), dict(owner_salt=w["salt"])


def do_intermediate_lot(lib, b, w, net):
    return (b.intermediate_code, w["pw"]), dict(owner_salt=w["salt"], lot=w["lot"], sequence=w["seq"])


def do_encrypt(lib, b, w, net):
    return (b.encrypt, spec.wif(w["key"], w["wp2"] if net == "testnet" else w["wp"], w["comp"]), w["pw"]), dict(network=net)


def do_create(lib, b, w, net):
    code = spec.base58check(spec.MAGIC_NOLOT + w["salt"] + spec.pubkey(w["key"], True))
    return (b.create_new_encrypted_wif, code), dict(wif_type="wif-compressed" if w["comp"] else "wif", seed=w["seed"], network=net)


def do_decrypt(lib, b, w, net):
    p = spec.noec_payload(w["key"], w["comp"], w["pw"], w["ap2"] if net == "testnet" else w["ap"])
    return (b.decrypt, spec.base58check(p), w["pw"]), dict(network=net, detail=True)


def do_decrypt_ec(lib, b, w, net):
    f = spec.pass_factor(w["pw"], w["salt"], False)
    p = spec.ec_encrypt(spec.pubkey(f, True), w["salt"], False, w["seed"], w["comp"], w["ap2"] if net == "testnet" else w["ap"])
    return (b.decrypt, spec.base58check(p[0]), w["pw"]), dict(network=net, detail=True)


def do_confirm(lib, b, w, net):
    f = spec.pass_factor(w["pw"], w["salt"], False)
    p = spec.ec_encrypt(spec.pubkey(f, True), w["salt"], False, w["seed"], w["comp"], w["ap2"] if net == "testnet" else w["ap"])
    return (b.confirm_code, w["pw"], spec.base58check(p[1])), dict(network=net, detail=True)


def lot_codes(w, net):
    e = spec.owner_entropy(w["salt"], w["lot"], w["seq"])
    f = spec.pass_factor(w["pw"], e, True)
    return spec.ec_encrypt(spec.pubkey(f, True), e, True, w["seed"], w["comp"], w["ap2"] if net == "testnet" else w["ap"])


def do_decrypt_lot(lib, b, w, net):
    return (b.decrypt, spec.base58check(lot_codes(w, net)[0]), w["pw"]), dict(network=net, detail=True)


def do_confirm_lot(lib, b, w, net):
    return (b.confirm_code, w["pw"], spec.base58check(lot_codes(w, net)[1])), dict(network=net, detail=True)


def do_address(lib, b, w, net):
    return (lib.p2pkh_address.P2PKHAddress.encode, spec.pubkey(w["key"], True)), dict(address_prefix=w["ap2"] if net == "testnet" else w["ap"])


def do_wif(lib, b, w, net):
    return (lib.wif.private_key_to_wif, w["key"]), dict(wif_type="wif-compressed" if w["comp"] else "wif", cryptocurrency=coin2(lib, w), network=net or "mainnet")


OPS = dict(intermediate=(do_intermediate, ("pw", "salt")), intermediate_lot=(do_intermediate_lot, ("pw", "salt", "lot", "seq")),
           encrypt=(do_encrypt, ("pw", "key", "comp")), create=(do_create, ("salt", "key", "seed", "comp")),
           decrypt=(do_decrypt, ("pw", "key", "comp")), decrypt_ec=(do_decrypt_ec, ("pw", "salt", "seed", "comp")),
           confirm=(do_confirm, ("pw", "salt", "seed", "comp")),
           decrypt_lot=(do_decrypt_lot, ("pw", "salt", "seed", "lot", "seq", "comp")),
           confirm_lot=(do_confirm_lot, ("pw", "salt", "seed", "lot", "seq", "comp")), address=(do_address, ("key",)), wif=(do_wif, ("key", "comp")))
NETTED = ("encrypt", "create", "decrypt", "decrypt_ec", "confirm", "decrypt_lot", "confirm_lot", "address", "wif")


def inputs(S, tag, names, base):
    """the inputs of an operation; those named are new, the others are taken from base"""
    w = dict(base)
    for n in names:
        if n == "pw":
            w[n] = S.text("passphrase" + tag)
        elif n in ("salt", "seed", "key"):
            w[n] = S.bytes(n + tag, dict(salt=8, seed=24, key=32)[n])
        elif n == "lot":
            w[n] = S.int("lot" + tag, 100000, 999999)
        elif n == "seq":
            w[n] = S.int("sequence" + tag, 0, 4095)
        else:
            w[n] = not base.get(n, True)
    return w


def valid(S, op, w):
    """the scalars the operation uses are valid"""
    names = OPS[op][1]
    if "key" in names:
        S.assume(spec.scalar_ok(w["key"]))
    if op in ("intermediate", "decrypt_ec", "confirm"):
        S.assume(spec.scalar_ok(spec.pass_factor(w["pw"], w["salt"], False)))
    if op in ("intermediate_lot", "decrypt_lot", "confirm_lot"):
        S.assume(spec.scalar_ok(spec.pass_factor(w["pw"], spec.owner_entropy(w["salt"], w["lot"], w["seq"]), True)))
    if "seed" in names:
        S.assume(spec.scalar_ok(spec.sha256d(w["seed"])))


def perform(S, lib, b, op, w, net):
    a, k = OPS[op][0](lib, b, w, net)
    return S.call(*a, **k)


def agree(S, x, y, label):
    S.check(S.same(x.kind(), y.kind()), label)
    if x.ok and y.ok:
        S.check(S.same(x.value, y.value), label)


def prefixes(S):
    """two networks, all prefixes different"""
    return dict(wp=128, ap=30, wp2=239, ap2=111)


def single(tier):
    out = []
    for op in OPS:
        for v in OPS[op][1]:                        # the same operation, one input changed
            out.append(dict(op=op, before=op, vary=v, net=None))
        out.append(dict(op=op, before=op, vary="all", net="testnet" if op in NETTED else None))
        out.append(dict(op=op, before="every", vary="all", net="testnet"))      # every other operation in turn, inputs of their own
        for other in OPS if tier != "quick" else ():    # another operation, all inputs its own
            out.append(dict(op=op, before=other, vary="all", net="testnet" if other in NETTED else None))
            if other in NETTED:
                out.append(dict(op=op, before=other, vary="all", net=None))
                out.append(dict(op=op, before=other, vary="none", net="testnet"))
    return out


@scenario("C22", cases=single, expect=["done"],
          bounds="one earlier operation on the same instance, arguments arbitrary (valid) or sharing all but one input, network given or not; ; "
                 "fixed prefixes, different for each network and coin")
def after(S, op, before, vary, net):
    w = dict(prefixes(S), comp=True)
    befores = [o for o in OPS if o != op] if before == "every" else [before]
    used = [n for n in ("pw", "salt", "seed", "key", "lot", "seq") if any(n in OPS[o][1] for o in befores)]
    w = inputs(S, "", [n for n in ("pw", "salt", "seed", "key", "lot", "seq") if n in OPS[op][1] or before != "every" and n in used], w)
    h = w if vary == "none" else inputs(S, "_before", used + ["comp"] if vary == "all" else [vary], w)
    valid(S, op, w)
    for o in befores:
        valid(S, o, h)

    def history(lib, b):
        for o in befores:
            perform(S, lib, b, o, h, net if o in NETTED else None)
    lib1, lib2 = S.lib, S.fresh()
    b1, b2 = lib1.core.BIP38(coin2(lib1, w)), lib2.core.BIP38(coin2(lib2, w))
    history(lib1, b1)
    r1 = perform(S, lib1, b1, op, w, None)
    r2 = perform(S, lib2, b2, op, w, None)
    history(lib2, b2)
    r3 = perform(S, lib2, b2, op, w, None)
    agree(S, r1, r2, "an operation gives the same result after another one")
    agree(S, r3, r2, "a repeated operation gives the same result")
    S.reach("done")


@scenario("C22", cases=lambda tier: [dict(op=o, before=x) for o in OPS for x in (NETTED if tier != "quick" else (o,)) if x in NETTED], expect=["done"],
          bounds="an earlier operation of another instance with another coin; fixed prefixes, different for each network and coin")
def other_instance(S, op, before):
    w = dict(prefixes(S), comp=True)
    w = inputs(S, "", [n for n in ("pw", "salt", "seed", "key", "lot", "seq") if n in OPS[op][1] or n in OPS[before][1]], w)
    valid(S, op, w)
    valid(S, before, w)
    o = dict(w, wp=176, ap=48)
    lib1, lib2 = S.lib, S.fresh()
    b1 = lib1.core.BIP38(coin2(lib1, w))
    x = lib1.core.BIP38(coin2(lib1, o), network="testnet")
    perform(S, lib1, x, before, o, "mainnet")
    perform(S, lib1, x, before, o, None)
    r1 = perform(S, lib1, b1, op, w, None)
    r2 = perform(S, lib2, lib2.core.BIP38(coin2(lib2, w)), op, w, None)
    agree(S, r1, r2, "an operation gives the same result whatever other instances did")
    S.reach("done")


@scenario("C22", cases=lambda tier: [dict(op=o, default=d) for o in NETTED if o not in ("address", "wif") for d in ("mainnet", "testnet")], expect=["done"],
          bounds="a network given for one call, before and after calls without; fixed prefixes, different for each network and coin")
def override(S, op, default):
    """the network of the instance is used again after a call with another network, successful or not"""
    w = inputs(S, "", OPS[op][1], dict(prefixes(S), comp=True))
    w["comp"] = True
    valid(S, op, w)
    other = "testnet" if default == "mainnet" else "mainnet"
    lib1, lib2 = S.lib, S.fresh()
    b1, b2 = lib1.core.BIP38(coin2(lib1, w), default), lib2.core.BIP38(coin2(lib2, w), default)
    r0 = perform(S, lib1, b1, op, w, other)
    a, k = OPS[op][0](lib1, b1, w, default)
    k.pop("network")
    r1 = S.call(*a, **k)
    r2 = S.call(b1.decrypt, "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", w.get("pw", "x"), network=other)
    r3 = S.call(*a, **k)
    f = perform(S, lib2, b2, op, w, default)
    agree(S, r1, f, "without a network the instance's network is used, also after a call with another one")
    agree(S, r3, f, "without a network the instance's network is used, also after a call with another one")
    g = perform(S, lib2, lib2.core.BIP38(coin2(lib2, w), other), op, w, other)
    agree(S, r0, g, "a network given for a call is used for that call")
    S.reach("done")


@scenario("C22", cases=lambda tier: [dict(op=o, kind=k) for o in OPS for k in (("arguments", "passphrase", "payload") if tier == "quick" else
                                     ("arguments", "passphrase", "payload", "junk", "wif"))], expect=["done"],
          bounds="an earlier operation that was refused; fixed prefixes, different for each network and coin")
def after_refusal(S, op, kind):
    w = inputs(S, "", OPS[op][1], dict(prefixes(S), comp=True))
    w["comp"] = True
    valid(S, op, w)
    lib1, lib2 = S.lib, S.fresh()
    b1, b2 = lib1.core.BIP38(coin2(lib1, w)), lib2.core.BIP38(coin2(lib2, w))
    if kind == "junk":
        x = spec.base58check(S.bytes("junk", 12))
        S.call(b1.decrypt, x, "x", network="testnet")
        S.call(b1.confirm_code, "x", x, network="testnet")
        S.call(b1.create_new_encrypted_wif, x, "wif", bytes(24), network="testnet")
    elif kind == "wif":
        S.call(b1.encrypt, spec.base58check(S.bytes("junk", 33)), "x", network="testnet")
    elif kind == "payload":                 # well-formed Base58Check of another length
        x = spec.base58check(b"\x80" + S.bytes("junk", 11))
        S.call(b1.decrypt, x, "x", network="testnet")
        S.call(b1.confirm_code, "x", x, network="testnet")
        S.call(b1.create_new_encrypted_wif, x, "wif", bytes(24), network="testnet")
        S.call(b1.encrypt, x, "x", network="testnet")
    elif kind == "passphrase":              # any passphrase for a key and a code
        t = S.text("another_passphrase")
        S.call(b1.decrypt, "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", t, network="testnet")
        S.call(b1.confirm_code, t, "cfrm38V5ahB3qWUn1ECfJPrEpBjHi9FsZDRmPZA1mBuqDLQyG9CjZGvjkEnPYHjRULEJ2nCmUUT", network="testnet")
    else:
        S.call(b1.encrypt, "L44B5gGEpqEDRS9vVPz7QT35jcBG2r3CZwSwQ4fCewXAhAhqGVpP", "x", network="nonet")
        S.call(b1.decrypt, "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "x", network="nonet")
        S.call(lib1.wif.private_key_to_wif, bytes(range(1, 33)), "nowif")
        S.call(lib1.core.BIP38.intermediate_code, "x", owner_salt=bytes(3))
        S.call(lib1.core.BIP38.intermediate_code, "x", lot=5, sequence=5)
    r1 = perform(S, lib1, b1, op, w, None)
    r2 = perform(S, lib2, b2, op, w, None)
    agree(S, r1, r2, "an operation gives the same result after a refused one")
    S.reach("done")
