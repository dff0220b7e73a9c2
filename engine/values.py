"""Sequence proxies with concrete lengths and symbolic elements."""
from . import core
from .core import (SymInt, SymBool, Unsupported, add, sub, scale, floordiv, mod, fn, bounds, simp, branch, rel_eq,
                   rel_le, conj, disj, neg, member, concretize, form_dom, assume, isnum)


def eqc(a, b):
    """condition a == b for two element codes"""
    if type(a) is not SymInt and type(b) is not SymInt:
        return a == b
    return rel_eq(sub(a, b))


def ltc(a, b):
    return rel_le(add(sub(a, b), 1))


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return conj([eqc(x, y) for x, y in zip(a, b)])


def in_set(x, vals):
    """condition: element code in a set of ints"""
    if type(x) is not SymInt:
        return x in vals
    if form_dom(x) is not None:
        return member(simp(x), lambda v: v in vals) if type(simp(x)) is SymInt else simp(x) in vals
    return disj([rel_eq(sub(x, v)) for v in vals])


def idx(i):
    return concretize(i) if type(i) in (SymInt, SymBool) else i


def fix_slice(s):
    return slice(*(None if v is None else idx(v) for v in (s.start, s.stop, s.step)))


class SymSeq:
    """Common parts of byte strings and text with element codes in self.e (tuple)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def _symkey(self):
        return (type(self).__name__, tuple(core.argkey(x) for x in self.e))

    def __len__(self): return len(self.e)
    def __bool__(self): return len(self.e) > 0
    def __hash__(self): return hash(self._symkey())

    def __eq__(self, o):
        c = self.codes_of(o)
        return NotImplemented if c is None else SymBool.of(seq_eq(self.e, c))

    def __ne__(self, o):
        c = self.codes_of(o)
        return NotImplemented if c is None else SymBool.of(neg(seq_eq(self.e, c)))

    def _lt(self, c, orequal):
        for x, y in zip(self.e, c):
            if branch(eqc(x, y)):
                continue
            return SymBool.of(ltc(x, y))
        return len(self.e) <= len(c) if orequal else len(self.e) < len(c)

    def __lt__(self, o):
        c = self.codes_of(o)
        return NotImplemented if c is None else self._lt(c, False)

    def __le__(self, o):
        c = self.codes_of(o)
        return NotImplemented if c is None else self._lt(c, True)

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else SymBool.of(neg(core.cond_of(r)))

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else SymBool.of(neg(core.cond_of(r)))

    def __add__(self, o):
        c = self.codes_of(o)
        return NotImplemented if c is None else self.make(self.e + tuple(c))

    def __radd__(self, o):
        c = self.codes_of(o)
        return NotImplemented if c is None else self.make(tuple(c) + self.e)

    def __mul__(self, n):
        if not isnum(n):
            return NotImplemented
        return self.make(self.e * idx(n))
    __rmul__ = __mul__

    def _affix(self, c, start):
        n = len(c)
        if n > len(self.e):
            return False
        return seq_eq(self.e[:n] if start else self.e[len(self.e) - n:], c)

    def startswith(self, p, *a):
        if a:
            return self[slice(*a)].startswith(p) if len(self[slice(*a)]) else False
        if type(p) is tuple:
            return SymBool.of(disj([core.cond_of(self.startswith(x)) for x in p]))
        return SymBool.of(self._affix(self.need(p), True))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with range")
        if type(p) is tuple:
            return SymBool.of(disj([core.cond_of(self.endswith(x)) for x in p]))
        return SymBool.of(self._affix(self.need(p), False))

    def removeprefix(self, p):
        c = self.need(p)
        return self.make(self.e[len(c):]) if branch(self._affix(c, True)) else self

    def removesuffix(self, p):
        c = self.need(p)
        return self.make(self.e[:len(self.e) - len(c)]) if c and branch(self._affix(c, False)) else self

    def need(self, o):
        c = self.codes_of(o)
        if c is None:
            raise TypeError(f"unexpected operand {type(o).__name__}")
        return c

    def _strip(self, chars, left, right):
        s = self.space if chars is None else self.need(chars)
        if any(type(x) is SymInt for x in s):
            raise Unsupported("strip of symbolic characters")
        s = frozenset(s)
        e = list(self.e)
        while left and e and branch(in_set(e[0], s)):
            e.pop(0)
        while right and e and branch(in_set(e[-1], s)):
            e.pop()
        return self.make(e)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def find(self, sub_, start=0, end=None):
        c = (sub_,) if isnum(sub_) else self.need(sub_)
        n = len(self.e) if end is None else min(idx(end), len(self.e))
        for i in range(idx(start), n - len(c) + 1):
            if branch(seq_eq(self.e[i:i + len(c)], c)):
                return i
        return -1

    def rfind(self, sub_):
        c = (sub_,) if isnum(sub_) else self.need(sub_)
        for i in range(len(self.e) - len(c), -1, -1):
            if branch(seq_eq(self.e[i:i + len(c)], c)):
                return i
        return -1

    def index(self, s, *a):
        r = self.find(s, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, s):
        c = (s,) if isnum(s) else self.need(s)
        if len(c) != 1:
            raise Unsupported("count of a longer substring")
        n = 0
        for x in self.e:
            if branch(eqc(x, c[0])):
                n += 1
        return n

    def __contains__(self, s):
        c = (s,) if isnum(s) else self.need(s)
        return branch(self.contains_cond(c))

    def contains_cond(self, c):
        return disj([seq_eq(self.e[i:i + len(c)], c) for i in range(len(self.e) - len(c) + 1)])

    def join(self, it):
        out = []
        for n, x in enumerate(it):
            if n:
                out.extend(self.e)
            out.extend(self.need(x))
        return self.make(out)

    def _pad(self, n, fill, left):
        f = self.need(fill)
        k = max(0, idx(n) - len(self.e))
        return self.make(tuple(f) * k + self.e if left else self.e + tuple(f) * k)

    def map_codes(self, table):
        """apply a python function to every code (small range)"""
        out = []
        for x in self.e:
            if type(x) is SymInt:
                lo, hi = bounds(x)
                if hi - lo > 2000:
                    raise Unsupported("character map over a large range")
                x = fn(x, tuple(table(v) for v in range(lo, hi + 1)), lo)
            else:
                x = table(x)
            out.append(x)
        return self.make(out)

    def replace(self, a, b, n=-1):
        a, b = self.need(a), self.need(b)
        if len(a) != 1:
            raise Unsupported("replace of a longer substring")
        out = []
        for x in self.e:
            if n != 0 and branch(eqc(x, a[0])):
                out.extend(b)
                n -= 1
            else:
                out.append(x)
        return self.make(out)

    def split(self, sep=None, maxsplit=-1):
        s = self.space if sep is None else self.need(sep)
        if sep is not None and len(s) != 1:
            raise Unsupported("split")
        ss = frozenset(s)
        out, cur = [], []
        for x in self.e:
            if maxsplit != 0 and branch(in_set(x, ss)):
                if sep is not None or cur:
                    out.append(self.make(cur))
                    maxsplit -= 1
                cur = []
            else:
                cur.append(x)
        if sep is not None or cur:
            out.append(self.make(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        n = len(self.need(sep))
        if i < 0:
            return self, self.make(()), self.make(())
        return self.make(self.e[:i]), sep, self.make(self.e[i + n:])


# ------------------------------------------------------------------------ bytes
def mk_bytes(e):
    e = tuple(simp(x) if type(x) is SymInt else x for x in e)
    if all(type(x) is not SymInt for x in e):
        return bytes(e)
    return SymBytes(e)


class SymBytes(SymSeq):
    __slots__ = ()
    space = (32, 9, 10, 11, 12, 13)

    @staticmethod
    def make(e):
        return mk_bytes(e)

    @staticmethod
    def codes_of(o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return tuple(bytes(o))
        if isinstance(o, (SymBytes, SymByteArray)):
            return tuple(o.e)
        return None

    def __iter__(self): return iter(self.e)

    def __getitem__(self, i):
        if type(i) is slice:
            return mk_bytes(self.e[fix_slice(i)])
        return self.e[idx(i)]

    def hex(self, sep=None, *a):
        if sep is not None:
            raise Unsupported("hex with separator")
        return mk_str(hex_codes(self.e))

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_text(self.e, encoding, errors)

    def ljust(self, n, fill=b" "): return self._pad(n, fill, False)
    def rjust(self, n, fill=b" "): return self._pad(n, fill, True)
    def zfill(self, n): return self._pad(n, b"0", True)
    def tobytes(self): return self
    def __bytes__(self): raise Unsupported("bytes() of symbolic bytes outside the encoder")

    def translate(self, table, delete=b""):
        if delete:
            raise Unsupported("translate with delete")
        return self.map_codes(lambda v: table[v])

    def lower(self): return self.map_codes(lambda v: v + 32 if 65 <= v <= 90 else v)
    def upper(self): return self.map_codes(lambda v: v - 32 if 97 <= v <= 122 else v)
    def isascii(self): return SymBool.of(conj([rel_le(sub(x, 127)) for x in self.e]))

    def __mod__(self, o): raise Unsupported("bytes formatting")
    def __reversed__(self): return iter(self.e[::-1])


class SymByteArray:
    """Mutable; always used for bytearray() inside instrumented code."""

    def __init__(self, e=()):
        self.e = list(e)

    def _symkey(self): return ("SymBytes", tuple(core.argkey(x) for x in self.e))
    def b(self): return SymBytes(self.e)
    def __len__(self): return len(self.e)
    def __bool__(self): return len(self.e) > 0
    def __iter__(self): return iter(self.e)
    __hash__ = None

    def chk(self, v):
        if not isnum(v):
            raise TypeError("an integer is required")
        v = simp(v)
        lo, hi = bounds(v)
        if lo < 0 or hi > 255:
            ok = conj([rel_le(sub(v, 255)), rel_le(scale(v, -1) if type(v) is SymInt else -v)])
            if not branch(ok):
                raise ValueError("byte must be in range(0, 256)")
        return v

    def append(self, v): self.e.append(self.chk(v))
    def extend(self, it): self.e.extend(self.chk(v) for v in it)
    def insert(self, i, v): self.e.insert(idx(i), self.chk(v))
    def pop(self, i=-1): return self.e.pop(idx(i))
    def reverse(self): self.e.reverse()
    def clear(self): self.e.clear()
    def copy(self): return SymByteArray(self.e)
    def remove(self, v):
        for i, x in enumerate(self.e):
            if branch(eqc(x, v)):
                del self.e[i]
                return
        raise ValueError("value not found in bytearray")

    def __getitem__(self, i):
        if type(i) is slice:
            return SymByteArray(self.e[fix_slice(i)])
        return self.e[idx(i)]

    def __setitem__(self, i, v):
        if type(i) is slice:
            self.e[fix_slice(i)] = [self.chk(x) for x in v]
        else:
            self.e[idx(i)] = self.chk(v)

    def __delitem__(self, i):
        del self.e[fix_slice(i) if type(i) is slice else idx(i)]

    def __add__(self, o):
        c = SymBytes.codes_of(o)
        return NotImplemented if c is None else SymByteArray(self.e + list(c))

    def __radd__(self, o):
        c = SymBytes.codes_of(o)
        return NotImplemented if c is None else mk_bytes(list(c) + self.e)

    def __iadd__(self, o):
        self.e.extend(self.chk(x) for x in o)
        return self

    def __mul__(self, n): return SymByteArray(self.e * idx(n))
    __rmul__ = __mul__

    def __eq__(self, o): return self.b() == o
    def __ne__(self, o): return self.b() != o
    def __lt__(self, o): return self.b() < o
    def __contains__(self, o): return o in self.b()
    def __reversed__(self): return iter(self.e[::-1])

    def __getattr__(self, name):
        if name.startswith("__") or name not in BYTES_METHODS:
            raise AttributeError(name)
        f = getattr(self.b(), name)
        if name in ("strip", "lstrip", "rstrip", "ljust", "rjust", "zfill", "replace", "lower", "upper", "translate",
                    "removeprefix", "removesuffix", "join"):
            return lambda *a, **k: SymByteArray(SymBytes.codes_of(f(*a, **k)))
        return f


BYTES_METHODS = set(dir(bytes))


def hex_codes(e):
    out = []
    for x in e:
        hi = floordiv(x, 16)
        lo = sub(x, scale(hi, 16)) if type(x) is SymInt else x & 15
        if type(x) is SymInt:
            lo = mod(x, 16)
        for n in (hi, lo):
            out.append(digit_code(n, HEX))
    return out


HEX = tuple(b"0123456789abcdef")
HEXU = tuple(b"0123456789ABCDEF")


def digit_code(n, table):
    return fn(n, table, 0) if type(n) is SymInt else table[n]


_UNHEX = {ord(c): int(c, 16) for c in "0123456789abcdefABCDEF"}
ASCII_SPACE = frozenset(b" \t\n\r\x0b\x0c")


def code_value(x, mapping):
    """digit value of a character code; ValueError (None) when it is no digit"""
    if type(x) is not SymInt:
        return mapping.get(x)
    c = in_set(x, frozenset(mapping))
    if not branch(c):
        return None
    x = simp(x)
    if type(x) is not SymInt:
        return mapping[x]
    d = form_dom(x)
    if d is None:
        lo, hi = bounds(x)
        raise Unsupported("digit of a large range")
    lo, hi = min(d), max(d)
    return fn(x, tuple(mapping.get(v, 0) for v in range(lo, hi + 1)), lo)


def fromhex(s):
    if isinstance(s, str):
        e = tuple(map(ord, s))
    elif isinstance(s, SymStr):
        e = s.e
    else:
        raise TypeError(f"fromhex() argument must be str, not {type(s).__name__}")
    out = []
    i = 0
    while i < len(e):
        if branch(in_set(e[i], ASCII_SPACE)):
            i += 1
            continue
        a = code_value(e[i], _UNHEX)
        if a is None:
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        b = code_value(e[i + 1], _UNHEX) if i + 1 < len(e) else None
        if b is None:
            raise ValueError("non-hexadecimal number found in fromhex() arg")
        out.append(add(scale(a, 16), b))
        i += 2
    return mk_bytes(out)


def norm_enc(encoding):
    e = encoding.lower().replace("_", "-")
    return {"utf8": "utf-8", "u8": "utf-8", "us-ascii": "ascii", "646": "ascii", "iso-8859-1": "latin-1",
            "latin1": "latin-1", "l1": "latin-1"}.get(e, e)


def decode_text(e, encoding, errors):
    enc = norm_enc(encoding)
    if enc == "latin-1":
        return mk_str(e)
    if enc not in ("ascii", "utf-8") or errors != "strict":
        raise Unsupported(f"decode {encoding}/{errors}")
    for x in e:
        if not branch(rel_le(sub(x, 127)) if type(x) is SymInt else x <= 127):
            if enc == "ascii":
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
            raise Unsupported("utf-8 decoding of symbolic non-ascii bytes")
    return mk_str(e)


# -------------------------------------------------------------------------- text
def mk_str(e):
    e = tuple(simp(x) if type(x) is SymInt else x for x in e)
    if all(type(x) is not SymInt for x in e):
        return "".join(map(chr, e))
    return SymStr(e)


def sconds(e, pred):
    """all characters satisfy pred (small domains or ascii bound)"""
    out = []
    for x in e:
        if type(x) is not SymInt:
            out.append(pred(x))
        elif form_dom(x) is not None:
            x = simp(x)
            out.append(member(x, pred) if type(x) is SymInt else pred(x))
        else:
            raise Unsupported("character class over a large range")
    return out


class SymStr(SymSeq):
    __slots__ = ()
    space = tuple(range(9, 14)) + tuple(range(28, 33)) + (0x85, 0xA0)

    @staticmethod
    def make(e):
        return mk_str(e)

    @staticmethod
    def codes_of(o):
        if isinstance(o, str):
            return tuple(map(ord, o))
        if isinstance(o, SymStr):
            return o.e
        return None

    def __iter__(self): return iter([mk_str((x,)) for x in self.e])
    def __reversed__(self): return iter([mk_str((x,)) for x in self.e[::-1]])

    def __getitem__(self, i):
        if type(i) is slice:
            return mk_str(self.e[fix_slice(i)])
        return mk_str((self.e[idx(i)],))

    def encode(self, encoding="utf-8", errors="strict"):
        return encode_text(self.e, encoding, errors)

    def ljust(self, n, fill=" "): return self._pad(n, fill, False)
    def rjust(self, n, fill=" "): return self._pad(n, fill, True)
    def zfill(self, n): return self._pad(n, "0", True)
    def lower(self):
        if not all(branch(rel_le(sub(x, 127)) if type(x) is SymInt else x < 128) for x in self.e):
            raise Unsupported("lower of non-ascii")
        return self.map_codes(lambda v: v + 32 if 65 <= v <= 90 else v)

    def upper(self):
        if not all(branch(rel_le(sub(x, 127)) if type(x) is SymInt else x < 128) for x in self.e):
            raise Unsupported("upper of non-ascii")
        return self.map_codes(lambda v: v - 32 if 97 <= v <= 122 else v)
    casefold = lower

    def isascii(self): return SymBool.of(conj([rel_le(sub(x, 127)) if type(x) is SymInt else x < 128 for x in self.e]))
    def isalnum(self): return SymBool.of(conj(sconds(self.e, lambda v: chr(v).isalnum())))
    def isdigit(self): return SymBool.of(conj(sconds(self.e, lambda v: chr(v).isdigit())))
    def isalpha(self): return SymBool.of(conj(sconds(self.e, lambda v: chr(v).isalpha())))
    def isspace(self): return SymBool.of(conj(sconds(self.e, lambda v: chr(v).isspace())))
    def isprintable(self): return SymBool.of(conj(sconds(self.e, lambda v: chr(v).isprintable())))

    def translate(self, table):
        out = []
        for x in self.e:
            keys = [k for k in table if isinstance(k, int)]
            hit = False
            for k in keys:
                if branch(eqc(x, k)):
                    v = table[k]
                    if v is not None:
                        out.extend([v] if isinstance(v, int) else map(ord, v))
                    hit = True
                    break
            if not hit:
                out.append(x)
        return mk_str(out)

    def __mod__(self, o): raise Unsupported("format with a symbolic template")
    def __str__(self): return "<symbolic text>"
    def __format__(self, spec): return "<symbolic text>"


def encode_text(e, encoding, errors="strict"):
    enc = norm_enc(encoding)
    if errors not in ("strict", "ignore", "replace"):
        raise Unsupported("encode errors=" + errors)
    out = []
    for x in e:
        if enc == "ascii" or enc == "latin-1":
            lim = 127 if enc == "ascii" else 255
            if branch(rel_le(sub(x, lim)) if type(x) is SymInt else x <= lim):
                out.append(x)
            elif errors == "strict":
                raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
            elif errors == "replace":
                out.append(63)
        elif enc == "utf-8":
            if type(x) is not SymInt:
                out.extend(chr(x).encode("utf-8", errors))
            elif branch(rel_le(sub(x, 0x7f))):
                out.append(x)
            elif branch(rel_le(sub(x, 0x7ff))):
                out += [add(floordiv(x, 64), 0xC0), add(mod(x, 64), 0x80)]
            elif branch(rel_le(sub(x, 0xffff))):
                if branch(conj([rel_le(sub(0xd800, x)), rel_le(sub(x, 0xdfff))])):
                    raise UnicodeEncodeError(enc, "?", 0, 1, "surrogates not allowed")
                out += [add(floordiv(x, 4096), 0xE0), add(mod(floordiv(x, 64), 64), 0x80), add(mod(x, 64), 0x80)]
            else:
                out += [add(floordiv(x, 1 << 18), 0xF0), add(mod(floordiv(x, 4096), 64), 0x80),
                        add(mod(floordiv(x, 64), 64), 0x80), add(mod(x, 64), 0x80)]
        else:
            raise Unsupported("encode " + encoding)
    return mk_bytes(out)


# ------------------------------------------------------------------ conversions
def int_from_bytes(b, byteorder="big", signed=False):
    e = seq_codes(b)
    if e is None:
        raise TypeError("cannot convert to bytes")
    if byteorder == "big":
        e = e[::-1]
    elif byteorder != "little":
        raise ValueError("byteorder must be either 'little' or 'big'")
    if len(e) == 4 and not signed and words.on() and any(type(x) is SymInt for x in e):
        return words.from_codes(e, "little")
    r = 0
    for i, x in enumerate(e):
        r = add(r, scale(x, 256 ** i))
    if signed and e:
        if branch(rel_le(sub(128, e[-1])) if type(e[-1]) is SymInt else e[-1] >= 128):
            r = sub(r, 256 ** len(e))
    return r


def seq_codes(b):
    c = SymBytes.codes_of(b)
    if c is not None:
        return tuple(c)
    if isinstance(b, (list, tuple)):
        return tuple(b)
    if hasattr(b, "__iter__") and not isinstance(b, (str, SymStr)):
        return tuple(b)
    return None


def int_to_bytes(x, length=1, byteorder="big", signed=False):
    n = concretize(length)
    if n < 0:
        raise ValueError("length argument must be non-negative")
    if type(x) is words.SymWord:
        return x.to_bytes(n, byteorder, signed=signed)
    x = simp(x)
    if type(x) is not SymInt:
        return int(x).to_bytes(n, byteorder, signed=bool(signed))
    if byteorder not in ("big", "little"):
        raise ValueError("byteorder must be either 'little' or 'big'")
    if signed:
        if n == 0:
            if branch(rel_eq(x)):
                return b""
            raise OverflowError("int too big to convert")
        h = 1 << (8 * n - 1)
        if not branch(conj([rel_le(sub(-h, x)), rel_le(sub(x, h - 1))])):
            raise OverflowError("int too big to convert")
        if branch(rel_le(add(x, 1))):
            x = add(x, 1 << (8 * n))
    else:
        if not branch(rel_le(scale(x, -1))):
            raise OverflowError("can't convert negative int to unsigned")
        if not branch(rel_le(sub(x, (1 << (8 * n)) - 1))):
            raise OverflowError("int too big to convert")
    x = simp(x)
    out = []
    cur = x
    for i in range(n):
        q = floordiv(cur, 256)
        out.append(mod(cur, 256) if type(cur) is SymInt else cur % 256)
        cur = q
    if byteorder == "big":
        out.reverse()
    return mk_bytes(out)


def to_radix(x, base, table, width=0, pad=48, neg_ok=True):
    """codes of the representation of a non-negative integer"""
    x = simp(x)
    if branch(rel_le(add(x, 1)) if type(x) is SymInt else x < 0):
        return (45,) + tuple(to_radix(scale(x, -1), base, table, max(0, width - 1), pad))
    out = []
    while True:
        q = floordiv(x, base)
        out.append(digit_code(mod(x, base), table))
        x = q
        if branch(rel_eq(x) if type(x) is SymInt else x == 0):
            break
    while len(out) < width:
        out.append(pad)
    return tuple(out[::-1])


def parse_radix(e, base):
    mapping = {}
    for v in range(base):
        c = "0123456789abcdefghijklmnopqrstuvwxyz"[v]
        mapping[ord(c)] = v
        mapping[ord(c.upper())] = v
    e = list(e)
    while e and branch(in_set(e[0], ASCII_SPACE)):
        e.pop(0)
    while e and branch(in_set(e[-1], ASCII_SPACE)):
        e.pop()
    sign = 1
    if e and branch(in_set(e[0], frozenset((43, 45)))):
        sign = -1 if branch(eqc(e[0], 45)) else 1
        e.pop(0)
    if not e:
        raise ValueError("invalid literal for int()")
    r = 0
    for x in e:
        v = code_value(x, mapping)
        if v is None:
            raise ValueError("invalid literal for int()")
        r = add(scale(r, base), v)
    return scale(r, sign)


# --------------------------------------------------------------- opaque text
class Opaque:
    """Text or bytes of unknown content and length (passphrases); only uninterpreted operations."""
    __slots__ = ("kind", "op", "args")      # kind: 'str' | 'bytes'

    def __init__(self, kind, op, *args):
        self.kind, self.op, self.args = kind, op, args

    def _symkey(self):
        return ("opaque", self.kind, self.op) + tuple(core.argkey(a) for a in self.args)

    def _new(self, op, *args, kind=None):
        return Opaque(kind or self.kind, op, self, *args)

    def _bool(self, name, *args):
        return SymBool.of(rel_eq(sub(1, core.of_atom(core.atom("uf", (core.app(name, (self,) + args), 0), 0, 1, name)))))

    def length(self):
        return core.of_atom(core.atom("uf", (core.app("len:" + self.kind, (self,)), 0), 0, 1 << 20, "len"))

    def __len__(self): return concretize(self.length(), 3)
    def __bool__(self): return branch(rel_le(sub(1, self.length())))
    def __hash__(self): return hash(self._symkey())

    def __eq__(self, o):
        if isinstance(o, Opaque):
            if self._symkey() == o._symkey():
                return True
            if o.kind != self.kind:
                return False
            a, b = (self, o) if repr(self._symkey()) < repr(o._symkey()) else (o, self)
            pair = identification(a, b)
            if pair is not None:
                at = core.atom("uf", (core.app("opaque-eq", (a, b)), 0), 0, 1, "opaque-eq")
                if (at.id, pair) not in core.CTX.equalities:
                    core.CTX.equalities.append((at.id, pair))
            return a._bool("opaque-eq", b)
        if isinstance(o, (str if self.kind == "str" else bytes)):
            return self._bool("opaque-eq", o)
        if isinstance(o, (SymStr, SymBytes)):
            raise Unsupported("comparison of opaque text with symbolic text")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool.of(neg(core.cond_of(r)))

    def __add__(self, o): return Opaque(self.kind, "concat", self, o)
    def __radd__(self, o): return Opaque(self.kind, "concat", o, self)
    def __mul__(self, n): return self._new("repeat", n)

    def encode(self, encoding="utf-8", errors="strict"):
        if self.kind != "str":
            raise AttributeError("encode")
        e = norm_enc(encoding)
        if e != "utf-8" and errors == "strict":
            if not branch(core.cond_of(self._bool("encodable:" + e))):
                raise UnicodeEncodeError(e, "?", 0, 1, "ordinal not in range")
        return self._new(f"encode:{e}:{'strict' if e == 'utf-8' else errors}", kind="bytes")

    def decode(self, encoding="utf-8", errors="strict"):
        if self.kind != "bytes":
            raise AttributeError("decode")
        if self.op.startswith("encode:") and self.op.split(":")[1] == norm_enc(encoding):
            return self.args[0]
        return self._new(f"decode:{norm_enc(encoding)}:{errors}", kind="str")

    def __getitem__(self, i):
        if type(i) is slice:
            if i.start is None and i.stop is None and i.step in (None, 1):
                return self
            return self._new("slice", i.start, i.stop, i.step)
        raise Unsupported("character of opaque text")

    def __iter__(self): raise Unsupported("iteration over opaque text")

    def _text(name):
        def f(self, *a):
            return self._new(name, *a)
        return f
    strip = _text("strip")
    lstrip = _text("lstrip")
    rstrip = _text("rstrip")
    lower = _text("lower")
    upper = _text("upper")
    casefold = _text("casefold")
    title = _text("title")
    capitalize = _text("capitalize")
    swapcase = _text("swapcase")
    replace = _text("replace")
    removeprefix = _text("removeprefix")
    removesuffix = _text("removesuffix")
    translate = _text("translate")
    expandtabs = _text("expandtabs")

    def _pred(name):
        def f(self, *a):
            return self._bool(name, *a)
        return f
    isascii = _pred("isascii")
    isdigit = _pred("isdigit")
    isalnum = _pred("isalnum")
    isspace = _pred("isspace")
    isprintable = _pred("isprintable")
    isupper = _pred("isupper")
    islower = _pred("islower")
    startswith = _pred("startswith")
    endswith = _pred("endswith")

    def __contains__(self, o): return branch(core.cond_of(self._bool("contains", o)))

    def __str__(self): return "<opaque>"
    def __format__(self, spec): return "<opaque>"


def identification(a, b):
    """what it means for the inputs that two unknown texts are equal: ('same' or 'canon', name, name), or None"""
    while a.op == b.op and a.op.startswith("encode:utf-8:"):
        a, b = a.args[0], b.args[0]
    how = "same"
    if a.op == b.op == "normalize" and a.args[1] == b.args[1] and a.args[1] in ("NFC", "NFD"):
        how, a, b = "canon", a.args[0], b.args[0]
        if "class" in (a.op, b.op):
            return None
    if a.op == b.op == "in":
        return (how,) + tuple(sorted((a.args[0], b.args[0])))
    return None


def nfc(form, t):
    """unicodedata.normalize on opaque text"""
    if form == "NFC" and t.op == "normalize" and t.args[1] in ("NFC", "NFKC"):
        return t
    if form == "NFC" and t.op == "normalize" and t.args[1] in ("NFD",):
        return nfc("NFC", t.args[0])
    if form == "NFC" and t.op == "canon":
        # member of a canonical equivalence class: same normal form for the class
        return Opaque("str", "normalize", Opaque("str", "class", t.args[0]), "NFC")
    if form in ("NFD", "NFKC", "NFKD") and t.op == "canon":
        return Opaque("str", "normalize", Opaque("str", "class", t.args[0]), form)
    if form == "NFC":
        for name in ("is_normalized:NFC", "isascii"):
            a = core.atom("uf", (core.app(name, (t,)), 0), 0, 1, name)
            if bounds(core.of_atom(a)) == (1, 1):
                return t
    return Opaque("str", "normalize", t, form)


PROXIES = (SymInt, SymBool, SymSeq, SymByteArray, Opaque)


def is_sym(x):
    return isinstance(x, PROXIES)


def has_sym(x, depth=3):
    if isinstance(x, PROXIES):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) or has_sym(z, depth - 1) for y, z in x.items())
    return getattr(x, "_is_model", False)

from . import words            # noqa: E402  (words uses the types above)
