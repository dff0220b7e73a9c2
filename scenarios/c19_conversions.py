"""Conversions between bytes, integers and hexadecimal text (C19)."""


def widths(tier):
    return (1, 2, 3, 5, 16, 32) if tier == "quick" else tuple(range(1, 41)) + (64,)


ORDERS = ("big", "little")


@scenario("C19", cases=lambda tier: [dict(n=n, order=o) for n in widths(tier) for o in ORDERS] + [dict(n=2, order=o, earlier=dict(n=2, order=p)) for o in ORDERS for p in ORDERS], expect=["shortest", "width", "too small"],
          bounds="every integer of at most n bytes, in n and fewer bytes, both byte orders")
@spec.again
def integers(S, n, order):
    u = S.lib.utils
    x = S.int("x", 0, 256 ** n - 1)
    r = S.call(u.integer_to_bytes, x, endianness=order)
    S.check(r.ok, "conversion without a width succeeds")
    k = len(r.value)
    S.check(S.same(k, len(spec.num_bytes(x))), "without a width the shortest form of at least one byte is used")
    S.check(S.same(r.value, x.to_bytes(k, order)), "the bytes are those of the integer")
    S.check(S.same(S.call(u.bytes_to_integer, r.value, order).value, x), "the integer comes back")
    S.reach("shortest")
    for w in sorted({1, n - 1, n, n + 1, n + 8} - {0}):
        r = S.call(u.integer_to_bytes, x, w, order)
        if x < 256 ** w:
            S.check(r.ok, "conversion at a sufficient width succeeds")
            S.check(S.same(r.value, x.to_bytes(w, order)), "the bytes are those of the integer at that width")
            S.check(S.same(S.call(u.bytes_to_integer, r.value, order).value, x), "the integer comes back at that width")
            S.reach("width")
        else:
            S.check(S.no(r.ok), "a width that is too small is an error")
            S.reach("too small")


@scenario("C19", cases=lambda tier: [dict(n=n) for n in widths(tier)], expect=["done"], bounds="integers; the default byte order is big-endian")
def default_order(S, n):
    u = S.lib.utils
    x = S.int("x", 0, 256 ** n - 1)
    S.check(S.same(S.call(u.integer_to_bytes, x, n).value, x.to_bytes(n, "big")), "big-endian bytes by default")
    S.check(S.same(S.call(u.integer_to_bytes, x).value, spec.num_bytes(x)), "the shortest big-endian form by default")
    S.check(S.same(S.call(u.bytes_to_integer, x.to_bytes(n, "big")).value, x), "read big-endian by default")
    S.reach("done")


@scenario("C19", cases=lambda tier: [dict(n=n, order=o, signed=s) for n in widths(tier) for o in ORDERS for s in (False, True)] + [dict(n=2, order=o, signed=s, earlier=dict(n=2, order="big", signed=False)) for o in ORDERS for s in (False, True)], expect=["done"],
          bounds="every byte string of n bytes, both byte orders, signed and unsigned at full width")
@spec.again
def from_bytes(S, n, order, signed):
    u = S.lib.utils
    b = S.bytes("data", n)
    x = S.call(u.bytes_to_integer, b, order, signed)
    S.check(x.ok, "reading succeeds")
    S.check(S.same(x.value, int.from_bytes(b, order, signed=signed)), "the integer is that of the bytes")
    S.check(S.same(S.call(u.integer_to_bytes, x.value, n, order, signed).value, b), "the bytes come back")
    S.reach("done")


@scenario("C19", cases=lambda tier: [dict(n=n) for n in ((0, 1, 2, 4, 24, 33) if tier == "quick" else range(0, 70))] + [dict(n=4, earlier=dict(n=4))], expect=["done"],
          bounds="every byte string of n bytes")
@spec.again
def hexadecimal(S, n):
    u = S.lib.utils
    b = S.bytes("data", n)
    t = S.call(u.bytes_to_string, b)
    S.check(t.ok, "conversion to text succeeds")
    S.check(S.same(t.value, b.hex()), "the text is the hexadecimal form")
    S.check(S.same(S.call(u.get_bytes, t.value).value, b), "the bytes come back")
    S.check(S.same(S.call(u.get_bytes, b).value, b), "bytes are accepted unchanged")
    S.check(S.same(S.call(u.bytes_to_string, t.value).value, t.value), "hexadecimal text is accepted unchanged")
    r = S.call(u.bytes_reverse, b)
    S.check(S.same(r.value, b[::-1]), "reversal reverses the bytes")
    S.check(S.same(S.call(u.bytes_reverse, r.value).value, b), "reversing twice returns the bytes")
    S.reach("done")


@scenario("C19", cases=lambda tier: [dict(n=n) for n in ((2, 4, 16, 64) if tier == "quick" else range(2, 81, 2))] + [dict(n=4, earlier=dict(n=4))], expect=["done"],
          bounds="every hexadecimal text of n digits, upper and lower case")
@spec.again
def hexadecimal_text(S, n):
    u = S.lib.utils
    t = S.pick("text", "0123456789abcdefABCDEF", n)
    S.check(S.same(S.call(u.get_bytes, t).value, bytes.fromhex(t)), "the bytes are those denoted by the text")
    S.check(S.same(S.call(u.bytes_to_string, t).value, t), "hexadecimal text is accepted unchanged")
    S.reach("done")


@scenario("C19", cases=lambda tier: [dict(n=n) for n in ((0, 1, 2, 5) if tier == "quick" else range(0, 12))], expect=["done"],
          bounds="every text of n code points below U+0800")
def plain_text(S, n):
    t = S.chars("text", n, 0, 0x7ff)
    S.check(S.same(S.call(S.lib.utils.get_bytes, t, unhexlify=False).value, t.encode("utf-8")), "text is taken as UTF-8 when asked for")
    S.reach("done")
