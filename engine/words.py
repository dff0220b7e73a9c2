"""32-bit words: values that enter wrapping additions, rotations and Boolean functions.

Used only while a scenario asks for it (S.words()): four symbolic bytes read as an integer then
become a word.  A word is the linear form  c + sum k*leaf  mod 2^32  (one normal form), with an
interval for the true Python integer it stands for; leaves are bytes and results of and/or/xor
and right shifts.  Every result is compared with the earlier ones: two with the same values on
all simulated inputs are shown equal by the solver (bit-vectors, over the leaves below both of
them) and then share one normal form."""
import random
import time

import z3

from . import core, values
from .core import SymInt, Unsupported, of_atom, atom

M = 1 << 32
SAMPLES = 24
_ON = []                     # non-empty: words are in use on this path
LEAVES = []                  # index -> (kind, args)
_LEAF = {}
_SIGS = []                   # leaf -> values on the simulated inputs
_BYSIG = {}                  # signature -> normal forms
_REP = {}                    # form -> normal form
_Z = {}
BYTES = {}                   # atom id of a byte of a word -> (normal form, shift)
_DESC = []                   # leaf -> bit set of the leaves at or below it
core.RESET += [_ON, LEAVES, _LEAF, _SIGS, _BYSIG, _REP, _Z, BYTES, _DESC]


def on():
    return bool(_ON)


def enable():
    if not _ON:
        _ON.append(True)


def sample(aid, j):
    a = core.ATOMS[aid]
    if j == 0:
        return a.lo
    if j == 1:
        return a.hi
    return random.Random(f"{a.kind}{a.name}{len(str(a.args))}:{aid}:{j}").randint(a.lo, a.hi)


def leaf(kind, args):
    k = (kind, args)
    i = _LEAF.get(k)
    if i is None:
        i = _LEAF[k] = len(LEAVES)
        LEAVES.append(k)
        _SIGS.append(leafsig(kind, args))
    return i


def leafsig(kind, args):
    if kind == "byte":
        return tuple(sample(args, j) for j in range(SAMPLES))
    if kind == "shr":
        return tuple(v >> args[1] for v in sig(args[0]))
    a, b = sig(args[0]), sig(args[1])
    f = {"and": int.__and__, "or": int.__or__, "xor": int.__xor__}[kind]
    return tuple(f(x, y) for x, y in zip(a, b))


def sig(form):
    t, c = form
    out = [c] * SAMPLES
    for i, k in t:
        s = _SIGS[i]
        for j in range(SAMPLES):
            out[j] += k * s[j]
    return tuple(v % M for v in out)


def norm(d, c):
    return tuple(sorted((i, k % M) for i, k in d.items() if k % M)), c % M


def zleaf(i):
    z = _Z.get(i)
    if z is None:
        z = _Z[i] = z3.BitVec(f"w{i}", 32)
    return z


def desc(i):
    """leaves at or below a leaf, as a bit set"""
    while len(_DESC) <= i:
        n = len(_DESC)
        kind, args = LEAVES[n]
        _DESC.append(1 << n | (0 if kind == "byte" else below([args[0]] if kind == "shr" else args)))
    return _DESC[i]


def below(forms):
    r = 0
    for f in forms:
        for i, _ in f[0]:
            r |= desc(i)
    return r


def operands(i):
    kind, args = LEAVES[i]
    return () if kind == "byte" else (args[0],) if kind == "shr" else args


def zform(form, seen):
    r = z3.BitVecVal(form[1], 32)
    for i, k in form[0]:
        r = r + seen[i] * z3.BitVecVal(k, 32)
    return r


def rewrite(form, sub):
    if not sub or not any(i in sub for i, _ in form[0]):
        return form
    d, c = {}, form[1]
    for i, k in form[0]:
        if i in sub:
            t, e = sub[i]
            c += k * e
            for j, v in t:
                d[j] = d.get(j, 0) + k * v
        else:
            d[i] = d.get(i, 0) + k
    return norm(d, c)


def proved_equal(f, g):
    """two forms are equal whatever the leaves that both depend on are (these are unfolded only
    where that does not suffice, newest first)"""
    st = core.CTX.stats
    common = below([f]) & below([g])
    for _ in range(4):
        unfold, seen, todo = [], set(), [i for h in (f, g) for i, _ in h[0]]
        frontier = set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            if common >> i & 1 or LEAVES[i][0] == "byte":
                frontier.add(i)
                continue
            unfold.append(i)
            todo += [j for h in operands(i) for j, _ in h[0]]
        env, side = {}, []
        free = set()
        for i in frontier:
            env[i] = zleaf(i)
            kind, args = LEAVES[i]
            if kind == "byte":
                side.append(z3.ULE(env[i], 255))
            elif kind == "shr":
                side.append(z3.ULE(env[i], (M >> args[1]) - 1))
            else:
                free.add(i)
        # sums that are operands become variables of their own: an unconstrained leaf of the sum
        # (odd coefficient) is expressed by the sum, which is a bijection
        sub = {}
        fresh = -1
        for i in sorted(unfold):
            for h in operands(i):
                h = rewrite(h, sub)
                if len(h[0]) < 2 and not (h[0] and h[1]) or any(j >= 0 and j not in frontier for j, _ in h[0]):
                    continue
                e = min((k & -k).bit_length() - 1 for _, k in h[0])
                h = tuple((j, k >> e) for j, k in h[0]), h[1] >> e if h[1] % (1 << e) == 0 else 0
                pick = [(j, k) for j, k in h[0] if k & 1 and j in free]
                if not pick:
                    continue
                j, k = pick[-1]
                free.discard(j)
                inv = pow(k, -1, M)
                d = {x: -v * inv for x, v in h[0] if x != j}
                d[fresh] = inv
                one = {j: norm(d, -h[1] * inv)}
                sub = {x: rewrite(v, one) for x, v in sub.items()}
                sub.update(one)
                env[fresh] = zleaf(fresh)
                fresh -= 1
        for i in sorted(unfold):
            kind, args = LEAVES[i]
            if kind == "shr":
                env[i] = z3.LShR(zform(rewrite(args[0], sub), env), args[1])
            else:
                x, y = [zform(rewrite(h, sub), env) for h in args]
                env[i] = x & y if kind == "and" else x | y if kind == "or" else x ^ y
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(zform(rewrite(f, sub), env) != zform(rewrite(g, sub), env))
        s.add(*side)
        t0 = time.time()
        r = s.check()
        st.queries += 1
        st.solver_time += time.time() - t0
        if r == z3.unsat:
            st.unsat += 1
            return True
        if r == z3.unknown:
            st.unknown += 1
            return False
        st.sat += 1
        new = [i for i in frontier if LEAVES[i][0] != "byte"]
        if not new:
            return False
        for i in sorted(new)[-4:]:
            common &= ~(1 << i)
    return False


def canonical(form):
    """the normal form shared by all results equal to this one"""
    if not form[0] or len(form[0]) == 1 and form[1] == 0 and form[0][0][1] == 1 and LEAVES[form[0][0][0]][0] == "byte":
        return form
    r = _REP.get(form)
    if r is not None:
        return r
    s = sig(form)
    lst = _BYSIG.setdefault(s, [])
    for g in lst + ([((), s[0])] if len(set(s)) == 1 else []):
        if proved_equal(form, g):
            _REP[form] = g
            return g
    lst.append(form)
    _REP[form] = form
    return form


class SymWord:
    _is_model = True
    _real_type = int
    __slots__ = ("f", "lo", "hi")

    def __init__(self, form, lo, hi):
        self.f, self.lo, self.hi = form, lo, hi

    @property
    def exact(self):
        return 0 <= self.lo and self.hi < M

    def _symkey(self):
        return ("w", self.f, self.lo, self.hi)

    def __hash__(self): return hash(self.f)
    def __repr__(self): return f"<word {self.f!r:.60}>"

    # linear
    def __add__(self, o):
        o = word(o)
        if o is None: return NotImplemented
        d = dict(self.f[0])
        for i, k in o.f[0]:
            d[i] = d.get(i, 0) + k
        return make(norm(d, self.f[1] + o.f[1]), self.lo + o.lo, self.hi + o.hi)
    __radd__ = __add__

    def scaled(self, k):
        b = (self.lo * k, self.hi * k)
        return make(norm({i: x * k for i, x in self.f[0]}, self.f[1] * k), min(b), max(b))

    def __neg__(self): return self.scaled(-1)
    def __pos__(self): return self
    def __invert__(self): return self.scaled(-1) + -1
    def __sub__(self, o):
        o = word(o)
        return NotImplemented if o is None else self + o.scaled(-1)
    def __rsub__(self, o):
        o = word(o)
        return NotImplemented if o is None else o + self.scaled(-1)
    def __mul__(self, o):
        if type(o) is int: return self.scaled(o)
        raise Unsupported("product of words")
    __rmul__ = __mul__
    def __lshift__(self, k):
        if type(k) is not int: raise Unsupported("shift by a symbolic amount")
        return self.scaled(1 << k)
    def __rshift__(self, k):
        if type(k) is not int: raise Unsupported("shift by a symbolic amount")
        if k == 0: return self
        if not self.exact: raise Unsupported("right shift of an integer of more than 32 bits")
        if k >= 32 or self.hi >> k == 0: return 0
        return make(norm({leaf("shr", (self.f, k)): 1}, 0), self.lo >> k, self.hi >> k)
    def __floordiv__(self, m):
        if type(m) is int and m > 0 and m & (m - 1) == 0: return self >> (m.bit_length() - 1)
        raise Unsupported("division of a word")
    def __mod__(self, m):
        if type(m) is int and m > 0 and m & (m - 1) == 0: return self & (m - 1)
        raise Unsupported("remainder of a word")

    # Boolean
    def __and__(self, o): return bitop("and", self, o)
    def __rand__(self, o): return bitop("and", self, o)
    def __or__(self, o): return bitop("or", self, o)
    def __ror__(self, o): return bitop("or", self, o)
    def __xor__(self, o): return bitop("xor", self, o)
    def __rxor__(self, o): return bitop("xor", self, o)

    def __eq__(self, o):
        w = word(o)
        if w is None: return NotImplemented
        if self.hi < w.lo or w.hi < self.lo: return False
        if self.exact and w.exact and self.f == w.f: return True
        raise Unsupported("comparison of words")
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    def _cmp(self, o): raise Unsupported("comparison of words")
    __lt__ = __le__ = __gt__ = __ge__ = _cmp
    def __bool__(self):
        if self.lo > 0 or self.hi < 0: return True
        raise Unsupported("comparison of words")
    def __int__(self): return self
    def __index__(self): raise Unsupported("word used as an index")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed or type(length) is not int or not self.exact:
            raise Unsupported("bytes of an integer of more than 32 bits")
        if self.hi >= 256 ** length:
            raise Unsupported("word that may not fit")
        out = []
        for i in range(length):
            if i >= 4:
                out.append(0)
                continue
            a = atom("var", ("wordbyte", self.f, i), 0, 255, "word")
            BYTES[a.id] = (self.f, 8 * i)
            out.append(of_atom(a))
        return values.mk_bytes(out if byteorder == "little" else out[::-1])


def make(form, lo, hi):
    form = canonical(form)
    if not form[0] and 0 <= lo and hi < M:
        return form[1]
    return SymWord(form, lo, hi)


def word(o):
    """-> SymWord (also for constants and symbolic integers), None for anything else"""
    if type(o) is SymWord:
        return o
    if isinstance(o, int):
        return SymWord(((), int(o) % M), int(o), int(o))
    if type(o) is SymInt:
        lo, hi = core.bounds(o)
        d = {}
        for i, k in o.t:
            a = core.ATOMS[i]
            if a.lo is None or a.lo < 0 or a.hi is None or a.hi > 255:
                raise Unsupported("integer mixed with words")
            d[leaf("byte", i)] = k
        return SymWord(norm(d, o.c), lo, hi)
    return None


def bits(n):
    return (n if n >= 0 else ~n).bit_length()


def bitop(op, a, b):
    a, b = word(a), word(b)
    if a is None or b is None:
        return NotImplemented
    if op == "and":
        for x, y in ((a, b), (b, a)):
            if x.lo == x.hi and x.lo >= 0:              # constant mask
                m = x.lo
                if m == M - 1:
                    return make(y.f, 0, m) if not y.exact else make(y.f, y.lo, y.hi)
                if m >= M:
                    if m & (m + 1) == 0 and 0 <= y.lo and y.hi <= m:
                        return y
                    raise Unsupported("mask of more than 32 bits")
                if m == 0:
                    return 0
                if y.exact and m & (m + 1) == 0 and y.hi <= m:
                    return y
    k = max(bits(v) for v in (a.lo, a.hi, b.lo, b.hi))
    if op == "and":
        nn = [x.hi for x in (a, b) if x.lo >= 0]
        lo, hi = (0, min(nn)) if nn else (-(1 << k), (1 << k) - 1)
    else:
        lo, hi = (0 if a.lo >= 0 and b.lo >= 0 else -(1 << k)), (1 << k) - 1
    x, y = sorted((a.f, b.f))
    if x == y:
        f = ((), 0) if op == "xor" else x
    else:
        f = None
        for p, q in ((x, y), (y, x)):
            if not p[0]:                                # constant operand
                if p[1] == 0:
                    f = ((), 0) if op == "and" else q
                elif p[1] == M - 1:
                    f = q if op == "and" else p if op == "or" else norm({i: -v for i, v in q[0]}, -1 - q[1])
        if f is None:
            f = norm({leaf(op, (x, y)): 1}, 0)
    return make(f, lo, hi)


def from_codes(codes, order):
    """four bytes read as an integer"""
    codes = list(codes) if order == "little" else list(codes)[::-1]
    w = 0
    for i, x in enumerate(codes):
        w = word(x).scaled(256 ** i) + w if type(x) is not int else w + (x << (8 * i)) if type(w) is not int else w + (x << (8 * i))
    return w


def models():
    """assignments of all atoms used in words: candidates for counterexamples"""
    for j in range(SAMPLES):
        vals = {}
        for aid, (form, sh) in BYTES.items():
            vals[aid] = sig(form)[j] >> sh & 255
        for n, (kind, args) in enumerate(LEAVES):
            if kind == "byte":
                vals[args] = _SIGS[n][j]
        m = core.Model(vals)
        m.default = (lambda j: lambda a: sample(a.id, j))(j)
        yield m
