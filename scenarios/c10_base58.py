"""Base58 and Base58Check (C10, C11)."""


def lens(tier):
    return list(range(0, 13)) + [21, 25, 34] if tier == "quick" else list(range(0, 40)) + [43, 45, 53, 55, 64, 80]


def alphabets(S, which):
    """alphabet arguments: the default one, the two in use, and reversed ones"""
    return {"default": ((), spec.BITCOIN58), "bitcoin": ((spec.BITCOIN58,), spec.BITCOIN58),
            "ripple": ((spec.RIPPLE58,), spec.RIPPLE58), "other": ((spec.OTHER58,), spec.OTHER58)}[which]


def with_alphabet(ns, few):
    return [dict(n=n, alphabet="default") for n in ns] + [dict(n=n, alphabet=a) for n in few for a in ("bitcoin", "ripple", "other")]


def history(cases, n):
    """the cases, and some of length n after another one of the same length and other alphabets"""
    one = [dict(n=n, alphabet=a) for a in ("default", "ripple")]
    return cases + [dict(c, earlier=d) for c in one for d in one]


@scenario("C10", cases=lambda tier: history(with_alphabet(lens(tier), (0, 1, 5, 25)), 5), expect=["roundtrip"],
          bounds="byte strings of the listed lengths, every content")
@spec.again
def decode_of_encode(S, n, alphabet):
    b = S.bytes("data", n)
    a, al = alphabets(S, alphabet)
    r = S.call(S.lib.base58.encode, b, *a)
    S.check(r.ok, "encoding succeeds")
    S.check(S.same(r.value, spec.base58(b, al)), "the encoding is the base58 form")
    d = S.call(S.lib.base58.decode, r.value, *a)
    S.check(d.ok, "decoding an encoding succeeds")
    S.check(S.same(d.value, b), "decoding the encoding returns the bytes")
    S.reach("roundtrip")


@scenario("C10", cases=lambda tier: history(with_alphabet(range(0, 9) if tier == "quick" else list(range(0, 24)) + [35, 51, 58], (0, 1, 4, 7)), 4), expect=["roundtrip"],
          bounds="strings over the alphabet of the listed lengths, every content")
@spec.again
def encode_of_decode(S, n, alphabet):
    a, al = alphabets(S, alphabet)
    s = S.pick("text", al, n)
    d = S.call(S.lib.base58.decode, s, *a)
    S.check(d.ok, "decoding succeeds")
    e = S.call(S.lib.base58.encode, d.value, *a)
    S.check(e.ok, "encoding succeeds")
    S.check(S.same(e.value, s), "encoding the decoding returns the string")
    S.reach("roundtrip")


@scenario("C10", cases=lambda tier: with_alphabet((1, 2, 4) if tier == "quick" else range(1, 9), (1, 3)), expect=["refused", "valid"],
          bounds="strings of any code points of the listed lengths")
def any_text(S, n, alphabet):
    a, al = alphabets(S, alphabet)
    s = S.chars("text", n)
    d = S.call(S.lib.base58.decode, s, *a)
    if S.all(*[S.any(*[S.same(c, x) for x in al]) for c in s]):
        S.check(d.ok, "a string over the alphabet decodes")
        S.reach("valid")
    else:
        S.check(d.raised(ValueError), "a character outside the alphabet is refused with a ValueError")
        S.reach("refused")


@scenario("C10", cases=lambda tier: [dict(place=p, alphabet=a) for p in (0, 7, 33) for a in ("default", "ripple")], expect=["refused"],
          bounds="a 34-character string with any one character outside the alphabet at the listed places")
def bad_character(S, place, alphabet):
    a, al = alphabets(S, alphabet)
    c = S.chars("character", 1)
    S.assume(S.all(*[S.no(S.same(c, x)) for x in al]))
    s = (al[7] + al[20] + al[57]) * 12
    s = s[:place] + c + s[place + 1:34]
    S.check(S.call(S.lib.base58.decode, s, *a).raised(ValueError), "a character outside the alphabet is refused with a ValueError")
    S.check(S.call(S.lib.base58.check_decode, s, *a).raised(ValueError), "checked decoding refuses it too")
    S.reach("refused")


@scenario("C11", cases=lambda tier: history(with_alphabet(lens(tier), (0, 1, 4, 5, 25)), 6), expect=["right", "wrong"],
          bounds="encodings of byte strings of the listed lengths, every content")
@spec.again
def check_decode(S, n, alphabet):
    raw = S.bytes("raw", n)
    a, al = alphabets(S, alphabet)
    d = S.call(S.lib.base58.check_decode, spec.base58(raw, al), *a)
    if n >= 4 and spec.sha256d(raw[:-4])[:4] == raw[-4:]:
        S.check(d.ok, "a right checksum is accepted")
        S.check(S.same(d.value, raw[:-4]), "the payload is returned")
        S.reach("right")
    else:
        S.check(d.raised(ValueError), "a wrong or missing checksum is refused with a ValueError")
        S.reach("wrong")


@scenario("C11", cases=lambda tier: history(with_alphabet(lens(tier), (0, 1, 21)), 2), expect=["done"],
          bounds="payloads of the listed lengths, every content")
@spec.again
def check_roundtrip(S, n, alphabet):
    b = S.bytes("payload", n)
    a, al = alphabets(S, alphabet)
    r = S.call(S.lib.base58.check_encode, b, *a)
    S.check(r.ok, "encoding succeeds")
    S.check(S.same(r.value, spec.base58check(b, al)), "the encoding is the Base58Check form")
    d = S.call(S.lib.base58.check_decode, r.value, *a)
    S.check(d.ok, "decoding succeeds")
    S.check(S.same(d.value, b), "the payload comes back")
    S.reach("done")
