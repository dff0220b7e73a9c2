"""Hash helpers and the bundled RIPEMD-160 (C21)."""
import hashlib


def lens(tier):
    return (0, 1, 20, 33, 55, 56, 63, 64, 65, 119, 120, 128) if tier == "quick" else tuple(range(0, 200)) + (255, 256, 257, 512, 1000)


HELPERS = ("sha256", "double_sha256", "ripemd160", "hash160", "get_checksum")


@scenario("C21", cases=lambda tier: [dict(n=n, form=f, helper=h) for n in lens(tier) for f in ("bytes", "hex") for h in HELPERS] +
          [dict(n=20, form=f, helper=h, earlier=dict(n=20, form=g, helper=h)) for f, g in (("bytes", "bytes"), ("bytes", "hex"), ("hex", "bytes")) for h in HELPERS],
          expect=["done"], bounds="every message of the listed lengths, as bytes and as hexadecimal text, with the platform's RIPEMD-160")
@spec.again
def helpers(S, n, form, helper):
    m = S.bytes("message", n)
    r = S.call(getattr(S.lib.crypto, helper), m.hex() if form == "hex" else m)
    S.check(r.ok, "a digest is returned")
    e = {"sha256": lambda: hashlib.sha256(m).digest(), "double_sha256": lambda: spec.sha256d(m),
         "ripemd160": lambda: hashlib.new("ripemd160", m).digest(), "hash160": lambda: spec.hash160(m),
         "get_checksum": lambda: spec.sha256d(m)[:4]}[helper]()
    S.check(S.same(r.value, e), "the digest is that of the standard function")
    S.reach("done")


@scenario("C21", cases=lambda tier: [dict(n=n) for n in (1, 2, 20, 33, 64)], expect=["done"], bounds="hexadecimal text in upper and lower case")
def mixed_case(S, n):
    t = S.pick("text", "0123456789abcdefABCDEF", 2 * n)
    for h, f in (("sha256", lambda x: hashlib.sha256(x).digest()), ("get_checksum", lambda x: spec.sha256d(x)[:4]), ("hash160", spec.hash160)):
        r = S.call(getattr(S.lib.crypto, h), t)
        S.check(r.ok, "a digest is returned")
        S.check(S.same(r.value, f(bytes.fromhex(t))), "the digest is that of the bytes the text denotes")
    S.reach("done")


@scenario("C21", cases=lambda tier: [dict(n=n) for n in ((0, 1, 3, 20, 32, 33, 54, 55, 56, 57, 60, 63, 64, 65, 119, 120, 128) if tier == "quick"
                                                         else tuple(range(0, 194)) + (247, 248, 255, 256, 257, 320))] +
          [dict(n=n, earlier=dict(n=m)) for n, m in ((20, 20), (56, 20), (20, 64))],
          expect=["done"], bounds="every message of the listed lengths")
@spec.again
def fallback(S, n):
    """the bundled function is RIPEMD-160"""
    S.words()
    m = S.bytes("message", n)
    r = S.call(S.lib.ripemd160.ripemd160, m)
    S.check(r.ok, "a digest is returned")
    S.check(S.same(r.value, spec.ripemd160(m)), "the bundled function computes RIPEMD-160")
    S.reach("done")


@scenario("C21", cases=lambda tier: [dict(n=n, form=f, helper=h) for n in ((0, 20, 33, 64) if tier == "quick" else tuple(range(0, 66)) + (119, 120, 128))
                                     for f in ("bytes", "hex") for h in ("ripemd160", "hash160")],
          expect=["done"], bounds="every message of the listed lengths, on a platform without RIPEMD-160")
@spec.again
def without_openssl(S, n, form, helper):
    S.words()
    m = S.bytes("message", n)
    S.no_ripemd()
    r = S.call(getattr(S.lib.crypto, helper), m.hex() if form == "hex" else m)
    S.check(r.ok, "a digest is returned without the platform's RIPEMD-160")
    S.check(S.same(r.value, spec.ripemd160(hashlib.sha256(m).digest() if helper == "hash160" else m)), "the digest is that of the standard function")
    S.reach("done")
