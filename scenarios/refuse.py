"""Malformed encoded inputs (C06, C07, C09)."""


def lens(tier, valid, *more):
    near = list(range(valid - 6, valid + 7)) + list(more)
    return sorted(set(list(range(0, 10)) + near)) if tier == "quick" else sorted(set(range(0, valid + 24)) | set(more))


@scenario("C06", cases=lambda tier: [dict(n=n) for n in lens(tier, 43)] + [dict(n=43, start="01", earlier=dict(n=43, start="01"))], expect=["refused", "opened", "error"],
          bounds="every byte string of the listed lengths in Base58 form, every passphrase")
@spec.again
def encrypted_key(S, n, start=""):
    raw = spec.prefixed(S, "raw", n, start)
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    d = S.call(b.decrypt, spec.base58(raw), S.text("passphrase"))
    good = False
    if n == 43 and spec.sha256d(raw[:-4])[:4] == raw[-4:] and raw[0] == 1:
        good = raw[1] == 0x43 or raw[1] == 0x42 and (raw[2] == 0xc0 or raw[2] == 0xe0)
    if not good:
        S.check(d.raised(S.lib.exceptions.Error), "a malformed encrypted key is refused with a library error")
        S.reach("refused")
    elif d.ok:
        S.reach("opened")
    else:
        S.check(d.raised(S.lib.exceptions.Error), "a failure is a library error")
        S.reach("error")


@scenario("C07", cases=lambda tier: [dict(n=n) for n in lens(tier, 53, 84, 85)] + [dict(n=53, start="2ce9b3e1ff39e2", earlier=dict(n=53, start="2ce9b3e1ff39e2"))], expect=["refused", "made", "error"],
          bounds="every byte string of the listed lengths in Base58 form, every seed")
@spec.again
def intermediate(S, n, start=""):
    raw, seed = spec.prefixed(S, "raw", n, start), S.bytes("seed", 24)
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    d = S.call(b.create_new_encrypted_wif, spec.base58(raw), "wif", seed)
    good = False
    if n == 53 and spec.sha256d(raw[:-4])[:4] == raw[-4:] and (raw[:8] == spec.MAGIC_LOT or raw[:8] == spec.MAGIC_NOLOT):
        good = spec.on_curve(raw[16:49])
    if not good:
        S.check(d.raised(S.lib.exceptions.Error), "a malformed intermediate code is refused with a library error")
        S.reach("refused")
    elif d.ok:
        S.reach("made")
    else:
        S.check(d.raised(S.lib.exceptions.Error), "a failure is a library error")
        S.reach("error")


@scenario("C07", cases=lambda tier: [dict(n=n) for n in lens(tier, 55, 86, 87)] + [dict(n=55, start="643bf6a8", earlier=dict(n=55, start="643bf6a8"))], expect=["refused", "confirmed", "error"],
          bounds="every byte string of the listed lengths in Base58 form, every passphrase")
@spec.again
def confirmation(S, n, start=""):
    raw = spec.prefixed(S, "raw", n, start)
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    d = S.call(b.confirm_code, S.text("passphrase"), spec.base58(raw))
    good = False
    if n == 55 and spec.sha256d(raw[:-4])[:4] == raw[-4:]:
        good = raw[:5] == bytes.fromhex("643bf6a89a")
    if not good:
        S.check(d.raised(S.lib.exceptions.Error), "a malformed confirmation code is refused with a library error")
        S.reach("refused")
    elif d.ok:
        S.reach("confirmed")
    else:
        S.check(d.raised(S.lib.exceptions.Error), "a failure is a library error")
        S.reach("error")


def texts(tier):
    return [dict(n=n) for n in ((0, 1, 2, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8, 10))]


def places(tier):
    return [dict(place=p, keep=k) for k in (0, 1) for p in ((0, 1, 31, 57, 58, 100) if tier == "quick" else list(range(0, 59, 2)) + [100])
            if k or p < 58]


@scenario("C06", cases=texts, expect=["refused"], bounds="every text (any code points) of the listed lengths")
def short_text(S, n):
    s = S.chars("text", n)
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    d = S.call(b.decrypt, s, S.text("passphrase"))
    S.check(d.raised(S.lib.exceptions.Error), "a text that is no encrypted key is refused with a library error")
    S.reach("refused")


@scenario("C07", cases=texts, expect=["refused"], bounds="every text (any code points) of the listed lengths")
def short_text_codes(S, n):
    s = S.chars("text", n)
    b = S.lib.core.BIP38(spec.coin(S.lib, 128, 30))
    d = S.call(b.confirm_code, S.text("passphrase"), s)
    S.check(d.raised(S.lib.exceptions.Error), "a text that is no confirmation code is refused with a library error")
    d = S.call(b.create_new_encrypted_wif, s, "wif", bytes(range(24)))
    S.check(d.raised(S.lib.exceptions.Error), "a text that is no intermediate code is refused with a library error")
    S.reach("refused")


VALID = {
    "decrypt": "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg",
    "confirm": "cfrm38V8aXBn7JWA1ESmFMUn6erxeBGZGAxJPY4e36S9QWkzZKtaVqLNMgnifETYw7BPwWC9aPD",
    "create": "passphrasepxFy57B9v8HtUsszJYKReoNDV6VHjUSGt8EVJmux9n1J3Ltf1gRxyDGXqnf9qm",
}


@scenario("C06", cases=places, expect=["refused"], bounds="a valid key with any code point put in place of (keep=0) or before (keep=1) a character, the code point being outside the alphabet")
def bad_character(S, place, keep):
    c = S.chars("character", 1)
    S.assume(S.all(*[S.no(S.same(c, a)) for a in spec.BITCOIN58]))
    v = VALID["decrypt"]
    s = v[:place] + c + v[place + 1 - keep:]
    b = S.lib.core.BIP38(S.lib.cryptocurrencies.Bitcoin)
    d = S.call(b.decrypt, s, S.text("passphrase"))
    S.check(d.raised(S.lib.exceptions.Error), "a character outside the alphabet is refused with a library error")
    S.reach("refused")


@scenario("C07", cases=places, expect=["refused"], bounds="a valid code with any code point put in place of (keep=0) or before (keep=1) a character, the code point being outside the alphabet")
def bad_character_codes(S, place, keep):
    c = S.chars("character", 1)
    S.assume(S.all(*[S.no(S.same(c, a)) for a in spec.BITCOIN58]))
    b = S.lib.core.BIP38(S.lib.cryptocurrencies.Bitcoin)
    pw = S.text("passphrase")
    v = VALID["confirm"]
    d = S.call(b.confirm_code, pw, v[:place] + c + v[place + 1 - keep:])
    S.check(d.raised(S.lib.exceptions.Error), "a character outside the alphabet is refused with a library error")
    v = VALID["create"]
    d = S.call(b.create_new_encrypted_wif, v[:place] + c + v[place + 1 - keep:], "wif", bytes(range(24)))
    S.check(d.raised(S.lib.exceptions.Error), "a character outside the alphabet is refused with a library error")
    S.reach("refused")


def insertions(tier):
    return [dict(place=p, keep=k) for k in (0, 1) for p in ((0, 1, 30, 51, 52) if tier == "quick" else range(0, 53)) if k or p < 52]


def refused_wif(S, s, coin, wp):
    """every reader of a WIF refuses the text"""
    m = S.lib.wif
    W = S.lib.exceptions.WIFError
    S.check(S.call(m.decode_wif, s, wp).raised(W), "decode_wif refuses it")
    for f in ("wif_to_private_key", "get_wif_type", "get_wif_checksum"):
        S.check(S.call(getattr(m, f), s, coin).raised(W), f + " refuses it")
    S.check(S.call(S.lib.core.BIP38(coin).encrypt, s, "passphrase").raised(W), "encrypt refuses it")
    S.reach("refused")


@scenario("C09", cases=lambda tier: [dict(n=n) for n in lens(tier, 38)] + [dict(n=n, start="80", earlier=dict(n=n, start="80")) for n in (37, 38)], expect=["refused", "read"],
          bounds="every byte string of the listed lengths in Base58 form, every 1-byte prefix")
@spec.again
def any_bytes(S, n, start=""):
    raw = spec.prefixed(S, "raw", n, start)
    wp = S.int("wif_prefix", 0, 255)
    coin = spec.coin(S.lib, wp, 30)
    s = spec.base58(raw)
    good = n in (37, 38) and spec.sha256d(raw[:-4])[:4] == raw[-4:] and raw[0] == wp and (n == 37 or raw[33] == 1)
    if not good:
        refused_wif(S, s, coin, wp)
        return
    d = S.call(S.lib.wif.decode_wif, s, wp)
    S.check(d.ok, "a valid WIF is read")
    S.check(S.same(d.value, (raw[1:33], "wif" if n == 37 else "wif-compressed", raw[-4:])), "key, type and checksum are those in the WIF")
    S.reach("read")


@scenario("C09", cases=lambda tier: [dict(n=n) for n in ((0, 1, 2, 5) if tier == "quick" else range(0, 11))], expect=["refused"],
          bounds="every text (any code points) of the listed lengths")
def any_short_text(S, n):
    refused_wif(S, S.chars("text", n), S.lib.cryptocurrencies.Bitcoin, 128)


@scenario("C09", cases=insertions, expect=["refused"],
          bounds="a valid WIF with any code point put in place of (keep=0) or before (keep=1) a character, the code point being outside the alphabet")
def bad_character_wif(S, place, keep):
    c = S.chars("character", 1)
    S.assume(S.all(*[S.no(S.same(c, a)) for a in spec.BITCOIN58]))
    v = "L44B5gGEpqEDRS9vVPz7QT35jcBG2r3CZwSwQ4fCewXAhAhqGVpP"
    refused_wif(S, v[:place] + c + v[place + 1 - keep:], S.lib.cryptocurrencies.Bitcoin, 128)
