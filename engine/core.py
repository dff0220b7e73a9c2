"""Term language, path conditions and solver interface of the symbolic executor.

Integers are linear forms  c + sum coef_i * atom_i  over hash-consed atoms:
  var   free input variable with an interval
  div   floor(L / M)   for a linear form L and an integer constant M
  fn    finite table applied to a small-range linear form
  xor   byte-wise exclusive or of byte-range forms (normal form: a set)
  bop   byte-wise and/or of two byte-range forms
  uf    byte number idx of an application of an uninterpreted function
  mul   product of two linear forms
  bl    bit length of a non-negative linear form
Everything else (remainders, shifts, bytes of integers ...) is expressed with
these, so that nested positional conversions (base 58, base 256) telescope.
The solver (z3) decides branch feasibility and every assertion.
"""
import itertools
import time
from math import gcd

import z3


# ---------------------------------------------------------------- control flow
class EngineStop(BaseException):
    """Never seen by the code under analysis (its `except Exception` cannot catch it)."""


class PathEnd(EngineStop):
    """The current path is infeasible or cut by an assumption."""


class Unsupported(EngineStop):
    """The code did something the encoder cannot represent."""


class Budget(EngineStop):
    """A bound (number of paths, time) was hit."""


class Identify(EngineStop):
    """Two unknown texts were found equal (or equal in a normal form): the path is explored from
    its start with one text in the place of both, so that everything derived from them agrees."""

    def __init__(self, how, a, b):
        self.pair = (how, a, b)


# ---------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name", "cone")

    def __init__(self, kind, args, lo, hi, name=None):
        self.kind, self.args, self.lo, self.hi, self.name = kind, args, lo, hi, name
        self.id = len(ATOMS)
        self.cone = None
        ATOMS.append(self)

    def __repr__(self):
        return f"a{self.id}:{self.name or self.kind}"


ATOMS = []
_TABLE = {}          # hash-consing of atoms


def atom(kind, args, lo, hi, name=None):
    k = (kind, args)
    a = _TABLE.get(k)
    if a is None:
        a = _TABLE[k] = Atom(kind, args, lo, hi, name)
    return a


class App:
    """Application of an uninterpreted function; args are hashable keys plus the values."""
    __slots__ = ("id", "fn", "args", "key")

    def __init__(self, fn, args, key):
        self.fn, self.args, self.key = fn, args, key
        self.id = len(APPS)
        APPS.append(self)


APPS = []
_APPTABLE = {}


def app(fn, args):
    """args: tuple of ints/SymInt/tuples of them/str/bytes/Opaque (all with .key or hashable)."""
    key = (fn, tuple(argkey(a) for a in args))
    p = _APPTABLE.get(key)
    if p is None:
        p = _APPTABLE[key] = App(fn, args, key)
    return p


def argkey(a):
    if type(a) is tuple:
        return tuple(argkey(x) for x in a)
    k = getattr(a, "_symkey", None)
    if k is not None:
        return ("s",) + k()
    return a


# --------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prefix=(), stats=None, limits=None):
        self.prefix = prefix
        self.trace = []            # list of (decision, alternative_exists)
        self.facts = []
        self.factkeys = set()
        self.decided = {}
        self.bounds = {}           # prim key -> (lo, hi)
        self.modreg = {}
        self.dom = {}              # prim key -> frozenset
        self.bcache = {}
        self.notes = []
        self.incomplete = []       # reasons why this path does not cover all values
        self.stats = stats if stats is not None else Stats()
        self.fresh = 0
        self.inputs = {}           # name -> value (ordered)
        self.envlog = []           # environment values (urandom) in call order
        self.reg = {}              # scratch registry for stubs (per path)
        self.limits = limits or {}
        self.reached = set()
        self.equalities = []       # (atom id of a comparison of unknown texts, what it says)

    def note_incomplete(self, why):
        if why not in self.incomplete:
            self.incomplete.append(why)


RESET = []           # containers emptied before every path (so that every path starts from the same state)


def reset():
    for x in RESET:
        x.clear()


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_time = 0.0
        self.branches = 0
        self.asserts = 0
        self.trivial = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


# ---------------------------------------------------------------- linear forms
class SymInt:
    """Immutable linear form with at least one atom."""
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t, self.c = t, c

    def _symkey(self):
        return (self.t, self.c)

    def __repr__(self):
        s = " + ".join(f"{k}*{ATOMS[i]!r}" for i, k in self.t[:4])
        return f"<{s}{'...' if len(self.t) > 4 else ''} + {self.c}>"

    # arithmetic
    def __add__(self, o): return add(self, o) if isnum(o) else NotImplemented
    def __radd__(self, o): return add(o, self) if isnum(o) else NotImplemented
    def __sub__(self, o): return sub(self, o) if isnum(o) else NotImplemented
    def __rsub__(self, o): return sub(o, self) if isnum(o) else NotImplemented
    def __neg__(self): return scale(self, -1)
    def __pos__(self): return self
    def __invert__(self): return sub(-1, self)

    def __mul__(self, o):
        if isnum(o):
            return mul(self, o)
        if isinstance(o, (bytes, str, list, tuple)):
            return o * concretize(self)
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o): return floordiv(self, o) if isnum(o) else NotImplemented
    def __rfloordiv__(self, o): return floordiv(o, self) if isnum(o) else NotImplemented
    def __mod__(self, o): return residue(self, o) if isnum(o) else NotImplemented
    def __rmod__(self, o): return mod(o, self) if isnum(o) else NotImplemented
    def __divmod__(self, o): return (floordiv(self, o), residue(self, o)) if isnum(o) else NotImplemented
    def __rdivmod__(self, o): return (floordiv(o, self), mod(o, self)) if isnum(o) else NotImplemented

    def __truediv__(self, o): return concretize(self) / concretize(o)
    def __rtruediv__(self, o): return concretize(o) / concretize(self)
    def __float__(self): return float(concretize(self))

    def __pow__(self, o, m=None):
        e = concretize(o)
        if e < 0:
            return pow(concretize(self), e) if m is None else pow(concretize(self), e, m)
        r = 1
        for _ in range(e):
            r = mul(r, self)
            if m is not None:
                r = mod(r, m)
        return r

    def __rpow__(self, o, m=None):
        return pow(o, concretize(self)) if m is None else pow(o, concretize(self), m)

    def __lshift__(self, o): return mul(self, 1 << concretize(o))
    def __rlshift__(self, o): return mul(o, 1 << concretize(self))
    def __rshift__(self, o): return floordiv(self, 1 << concretize(o))
    def __rrshift__(self, o): return floordiv(o, 1 << concretize(self))
    def __and__(self, o): return bitop("and", self, o) if isnum(o) else NotImplemented
    def __rand__(self, o): return bitop("and", o, self) if isnum(o) else NotImplemented
    def __or__(self, o): return bitop("or", self, o) if isnum(o) else NotImplemented
    def __ror__(self, o): return bitop("or", o, self) if isnum(o) else NotImplemented
    def __xor__(self, o): return bitop("xor", self, o) if isnum(o) else NotImplemented
    def __rxor__(self, o): return bitop("xor", o, self) if isnum(o) else NotImplemented

    # comparison
    def __eq__(self, o): return SymBool.of(rel_eq(sub(self, o))) if isnum(o) else NotImplemented
    def __ne__(self, o): return SymBool.of(neg(rel_eq(sub(self, o)))) if isnum(o) else NotImplemented
    def __le__(self, o): return SymBool.of(rel_le(sub(self, o))) if isnum(o) else NotImplemented
    def __lt__(self, o): return SymBool.of(rel_le(add(sub(self, o), 1))) if isnum(o) else NotImplemented
    def __ge__(self, o): return SymBool.of(rel_le(sub(o, self))) if isnum(o) else NotImplemented
    def __gt__(self, o): return SymBool.of(rel_le(add(sub(o, self), 1))) if isnum(o) else NotImplemented
    def __hash__(self): return hash((self.t, self.c))
    def __bool__(self): return branch(neg(rel_eq(self)))
    def __index__(self): return concretize(self)
    def __int__(self): return concretize(self)
    def __abs__(self): return self if self >= 0 else -self
    def __trunc__(self): return self
    def __round__(self, n=None): return self

    # int API
    def bit_length(self): return bit_length(self)
    def bit_count(self): return concretize(self).bit_count()
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def numerator(self): return self

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .values import int_to_bytes
        return int_to_bytes(self, length, byteorder, signed)


def isnum(x):
    return type(x) is SymInt or isinstance(x, (int, SymBool))


def num(x):
    if type(x) is SymBool:
        return 1 if x else 0
    return x


def mk(t, c):
    """t: dict atom id -> coef (may hold zeros) -> int | SymInt"""
    items = [(i, k) for i, k in t.items() if k]
    if not items:
        return c
    items.sort()
    return SymInt(tuple(items), c)


def of_atom(a):
    return SymInt(((a.id, 1),), 0)


def parts(x):
    if type(x) is SymInt:
        return x.t, x.c
    if isinstance(x, int):
        return (), int(x)
    raise Unsupported(f"not a number: {type(x)}")


def add(a, b):
    a, b = num(a), num(b)
    if type(a) is not SymInt:
        if type(b) is not SymInt:
            return a + b
        a, b = b, a
    if type(b) is not SymInt:
        return SymInt(a.t, a.c + b) if b else a
    d = dict(a.t)
    for i, k in b.t:
        d[i] = d.get(i, 0) + k
    return unify(mk(d, a.c + b.c))


def sub(a, b):
    a, b = num(a), num(b)
    if type(b) is SymInt:
        return add(a, scale(b, -1))
    return add(a, -b)


def scale(a, k):
    a = num(a)
    if type(a) is not SymInt:
        return a * k
    if k == 0:
        return 0
    return SymInt(tuple((i, x * k) for i, x in a.t), a.c * k)


def mul(a, b):
    a, b = simp(num(a)), simp(num(b))
    if type(a) is not SymInt:
        return scale(b, a)
    if type(b) is not SymInt:
        return scale(a, b)
    for x, y in ((a, b), (b, a)):          # {0,1}-valued factor: fork instead of a product
        lo, hi = bounds(x)
        if 0 <= lo and hi <= 1:
            return y if branch(rel_eq(sub(x, 1))) else 0
    if (b.t, b.c) < (a.t, a.c):
        a, b = b, a
    (al, ah), (bl, bh) = bounds0(a), bounds0(b)
    ps = (al * bl, al * bh, ah * bl, ah * bh)
    return of_atom(atom("mul", (FK(a), FK(b)), min(ps), max(ps)))


class FK:
    """Hashable wrapper of a form, used inside atom args."""
    __slots__ = ("f", "k")

    def __init__(self, f):
        self.f = f
        self.k = (f.t, f.c) if type(f) is SymInt else (None, f)

    def __eq__(self, o): return self.k == o.k
    def __hash__(self): return hash(self.k)
    def __lt__(self, o): return self.k < o.k
    def __repr__(self): return repr(self.f)


# ------------------------------------------------------------------ primitives
def prim(t):
    """-> (g, key): t == g * key with key having gcd 1 and positive first coefficient."""
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1:
            break
    if t[0][1] < 0:
        g = -g
    if g == 1:
        return 1, t
    return g, tuple((i, k // g) for i, k in t)


def atom_bounds0(a):
    """Path-independent bounds."""
    return a.lo, a.hi


def bounds0(x):
    if type(x) is not SymInt:
        return x, x
    lo = hi = x.c
    for i, k in x.t:
        a = ATOMS[i]
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return lo, hi


def key_bounds(key):
    c = CTX
    r = c.bcache.get(key)
    if r is not None:
        return r
    if len(key) == 1:
        lo, hi = atom_bounds(ATOMS[key[0][0]])
    else:
        lo = hi = fix = 0
        free = []
        for i, k in key:
            al, ah = key_bounds(((i, 1),))
            if al == ah:
                fix += k * al
            else:
                free.append((i, k))
            if k > 0:
                lo += k * al
                hi += k * ah
            else:
                lo += k * ah
                hi += k * al
        if free and len(free) < len(key):
            lo, hi = bounds(SymInt(tuple(free), fix))
    for tab in (c.modreg, c.bounds):
        b = tab.get(key)
        if b is not None:
            lo, hi = max(lo, b[0]), min(hi, b[1])
    d = c.dom.get(key)
    if d:
        lo, hi = max(lo, min(d)), min(hi, max(d))
    c.bcache[key] = (lo, hi)
    return lo, hi


def atom_bounds(a):
    if a.kind == "div":
        l, h = bounds(a.args[0].f)
        m = a.args[1]
        return max(a.lo, l // m), min(a.hi, h // m)
    if a.kind == "fn":
        vals = [v for v in fn_values(a)]
        if vals:
            return min(vals), max(vals)
    if a.kind == "bl":
        l, h = bounds(a.args[0].f)
        return max(a.lo, max(l, 0).bit_length()), min(a.hi, max(h, 0).bit_length())
    if a.kind == "xor" or a.kind == "bop":
        d = small_atom_dom(a)
        if d:
            return min(d), max(d)
        if a.kind == "xor":
            m = a.args[1]
            for p in a.args[0]:
                m |= onemask(p.f)
        else:
            m1, m2 = onemask(a.args[1].f), onemask(a.args[2].f)
            m = m1 & m2 if a.args[0] == "and" else m1 | m2
        return a.lo, min(a.hi, (1 << m.bit_length()) - 1)
    return a.lo, a.hi


def bounds(x):
    if type(x) is not SymInt:
        return x, x
    g, key = prim(x.t)
    lo, hi = key_bounds(key)
    if g > 0:
        return g * lo + x.c, g * hi + x.c
    return g * hi + x.c, g * lo + x.c


DOMMAX = 1200


def key_dom(key):
    """Sorted iterable of possible values of a small-range primitive form, or None."""
    d = CTX.dom.get(key)
    if d is not None:
        return d
    lo, hi = key_bounds(key)
    if hi - lo > DOMMAX:
        return None
    if len(key) == 1:
        a = ATOMS[key[0][0]]
        if a.kind == "fn":
            return frozenset(fn_values(a))
        if a.kind in ("xor", "bop"):
            s = small_atom_dom(a)
            if s:
                return frozenset(v for v in s if lo <= v <= hi)
    return range(lo, hi + 1)


def form_dom(x):
    """-> list of values of form x, or None when the range is large"""
    if type(x) is not SymInt:
        return [x]
    g, key = prim(x.t)
    d = key_dom(key)
    if d is None:
        return None
    return [g * v + x.c for v in d]


def small_atom_dom(a):
    """value set of an xor/bop atom whose operands have tiny domains (cached per path)."""
    k = ("sad", a.id)
    c = CTX.bcache
    if k in c:
        return c[k]
    c[k] = None
    if a.kind == "xor":
        cur, const = {a.args[1]}, a.args[1]
        ops = [p.f for p in a.args[0]]
        fun = lambda x, y: x ^ y
    else:
        ops = [a.args[1].f]
        cur = None
        fun = {"and": lambda x, y: x & y, "or": lambda x, y: x | y}[a.args[0]]
        ops = [a.args[1].f, a.args[2].f]
    for o in ops:
        d = form_dom(o)
        if d is None or len(d) > 16:
            return None
        if cur is None:
            cur = set(d)
        else:
            cur = {fun(x, y) for x in cur for y in d}
        if len(cur) > 64:
            return None
    c[k] = frozenset(cur)
    return c[k]


def simp(x):
    """Replace atoms whose value is fixed on this path."""
    if type(x) is not SymInt:
        return x
    lo, hi = bounds(x)
    if lo == hi:
        return lo
    if not CTX.bounds and not CTX.dom:
        return x
    d, c, ch = {}, x.c, False
    for i, k in x.t:
        lo, hi = key_bounds(((i, 1),))
        if lo == hi:
            c += k * lo
            ch = True
        else:
            d[i] = k
    return carry(x, mk(d, c)) if ch else x


def carry(x, y):
    """y has the value of x on this path: what is known of the range of x holds of y"""
    if type(y) is SymInt and type(x) is SymInt and y.t != x.t:
        xl, xh = bounds(x)
        yl, yh = bounds(y)
        if xl > yl or xh < yh:
            g, key = prim(y.t)
            l, h = xl - y.c, xh - y.c
            if g < 0:
                l, h, g = -h, -l, -g
            l, h = -((-l) // g), h // g
            old = CTX.modreg.get(key)
            CTX.modreg[key] = (l, h) if old is None else (max(l, old[0]), min(h, old[1]))
            CTX.bcache.pop(key, None)       # other cached ranges stay valid, only less tight
    return y


def renorm(x):
    """rebuild a form bottom-up under what is known on this path"""
    if type(x) is not SymInt:
        return x
    r, c = {}, x.c
    parts_ = None
    for i, k in x.t:
        y = renorm_atom(i)
        if type(y) is SymInt:
            for j, m in y.t:
                r[j] = r.get(j, 0) + k * m
            c += k * y.c
        else:
            c += k * y
    return carry(x, unify(mk(r, c)))


def renorm_atom(i):
    key = ("rn", i)
    y = CTX.bcache.get(key)
    if y is not None:
        return y
    a = ATOMS[i]
    lo, hi = key_bounds(((i, 1),))
    k = a.kind
    if lo == hi:
        y = lo
    elif k == "var" or k == "uf":
        y = SymInt(((i, 1),), 0)
    elif k == "div":
        y = floordiv(renorm(a.args[0].f), a.args[1])
    elif k == "fn":
        y = fn(renorm(a.args[0].f), a.args[1], a.args[2], canon=True)
    elif k == "xor":
        y = xor_of([renorm(p.f) for p in a.args[0]], a.args[1])
    elif k == "bop":
        y = byteop(a.args[0], renorm(a.args[1].f), renorm(a.args[2].f))
    elif k == "bl":
        y = bit_length(renorm(a.args[0].f))
    elif k == "mul":
        y = mul(renorm(a.args[0].f), renorm(a.args[1].f))
    else:
        y = SymInt(((i, 1),), 0)
    CTX.bcache[key] = y
    return y


def renorm_cond(c):
    if isinstance(c, bool):
        return c
    k = c[0]
    if k == "and":
        return conj([renorm_cond(x) for x in c[1]])
    if k == "or":
        return disj([renorm_cond(x) for x in c[1]])
    x = renorm(SymInt(c[1], 0))
    if type(x) is SymInt and x.t == c[1] and x.c == 0:
        return c
    if k == "le": return rel_le(sub(x, c[2]))
    if k == "ge": return rel_le(sub(c[2], x))
    if k == "eq": return rel_eq(sub(x, c[2]))
    if k == "ne": return neg(rel_eq(sub(x, c[2])))
    if type(x) is not SymInt:
        return (x in c[2]) == (k == "in")
    if form_dom(x) is None:
        return c
    return member(x, lambda v: (v in c[2]) == (k == "in"))


# ---------------------------------------------------------------- div and mod
def floordiv(a, m):
    a, m = num(a), simp(num(m))
    if type(m) is SymInt:
        m = concretize(m)
    if m == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if type(a) is not SymInt:
        return a // m
    if m < 0:
        a, m = scale(a, -1), -m
    if m == 1:
        return a
    out, rest = {}, {}
    for i, k in a.t:
        if k % m == 0:
            out[i] = k // m
        else:
            rest[i] = k
    oc, rc = divmod(a.c, m)
    r = add(mk(out, oc), _div(mk(rest, rc), m))
    if type(r) is SymInt and len(r.t) > 1:
        lo, hi = bounds(a)
        within(r, lo // m, hi // m)
    return r


def within(r, lo, hi):
    """records a range that holds for a form by construction"""
    l0, h0 = bounds(r)
    if l0 >= lo and h0 <= hi:
        return
    g, key = prim(r.t)
    l, h = lo - r.c, hi - r.c
    if g < 0:
        l, h, g = -h, -l, -g
    l, h = -((-l) // g), h // g
    old = CTX.modreg.get(key)
    CTX.modreg[key] = (l, h) if old is None else (max(l, old[0]), min(h, old[1]))
    CTX.bcache.pop(key, None)


def _div(r, m):
    """floor(r/m), no coefficient of r divisible by m, 0 <= const < m."""
    if type(r) is not SymInt:
        return r // m
    lo, hi = bounds(r)
    if lo // m == hi // m:
        return lo // m
    # common factor
    g = m
    for _, k in r.t:
        g = gcd(g, k)
        if g == 1:
            break
    if g > 1:
        return floordiv(SymInt(tuple((i, k // g) for i, k in r.t), r.c // g), m // g)
    # drop a low part: floor((g*X + Y)/m) = floor(X/(m/g)) for 0 <= Y < g, g | m
    if len(r.t) > 1:
        items = sorted(r.t, key=lambda p: -abs(p[1]))
        g = m
        for n in range(1, len(items)):
            g = gcd(g, items[n - 1][1])
            if g == 1:
                break
            if abs(items[n][1]) >= g:
                continue
            low = mk(dict(items[n:]), r.c % g)
            l, h = bounds(low)
            if l >= 0 and h < g:
                hic = r.c - r.c % g
                high = mk({i: k // g for i, k in items[:n]}, hic // g)
                return floordiv(high, m // g)
    # floor(floor(L/k)/m) = floor(L/(k*m))
    if len(r.t) == 1 and r.t[0][1] == 1:
        a = ATOMS[r.t[0][0]]
        if a.kind == "div":
            inner, k = a.args[0].f, a.args[1]
            return floordiv(add(inner, r.c * k), k * m)
        if a.kind == "fn" and a.hi - a.lo <= DOMMAX:
            return fn_map(a, lambda v: (v + r.c) // m)
    lo0, hi0 = bounds0(r)
    return of_atom(atom("div", (FK(r), m), lo0 // m, hi0 // m))


PRIMES = set()


def residue(a, m):
    """a mod m as an operation of the code; modulo a prime a product is zero only if a factor is"""
    r = mod(a, m)
    if m in PRIMES and type(r) is SymInt:
        a = simp(num(a))
        if type(a) is SymInt and len(a.t) == 1 and a.c == 0 and a.t[0][1] % m and ATOMS[a.t[0][0]].kind == "mul":
            k = ("prime", a.t[0][0], m)
            if k not in CTX.reg:
                CTX.reg[k] = True
                out = [rel_le(sub(1, r))]
                for f in factors(ATOMS[a.t[0][0]]):
                    out += [rel_le(f), rel_le(sub(m, f))]
                assert_fact(simplify(disj(out)))
    return r


def factors(a):
    for x in a.args:
        f = x.f
        if type(f) is SymInt and len(f.t) == 1 and f.c == 0 and f.t[0][1] == 1 and ATOMS[f.t[0][0]].kind == "mul":
            yield from factors(ATOMS[f.t[0][0]])
        else:
            yield f


def mod(a, m):
    a, m = num(a), simp(num(m))
    if type(m) is SymInt:
        m = concretize(m)
    if m == 0:
        raise ZeroDivisionError("integer modulo by zero")
    if type(a) is not SymInt:
        return a % m
    if m < 0:
        return scale(mod(scale(a, -1), -m), -1)
    out = {}
    for i, k in a.t:
        if k % m:
            out[i] = k
    a = mk(out, a.c % m)
    if type(a) is not SymInt:
        return a
    r = sub(a, scale(floordiv(a, m), m))
    if type(r) is SymInt:
        within(r, 0, m - 1)
    return r


# ---------------------------------------------------------------------- tables
def fn_base(a):
    return a.args[0].f


def fn_values(a):
    """Values the table atom can take under the current path domain of its argument."""
    k = ("fnv", a.id)
    r = CTX.bcache.get(k)
    if r is None:
        d = form_dom(a.args[0].f)
        tab, off = a.args[1], a.args[2]
        if d is None:
            r = set(tab)
        else:
            r = {tab[v - off] for v in d if 0 <= v - off < len(tab)}
        CTX.bcache[k] = r
    return r


def fn_map(a, f):
    """apply python function f to the value of table atom a"""
    tab, off = a.args[1], a.args[2]
    return fn(a.args[0].f, tuple(f(v) for v in tab), off)


def contradiction(what):
    """a normal form that no path condition with a solution can lead to"""
    r, _ = check(CTX.facts, [], full=True, want_model=False)
    if r == "unsat":
        raise PathEnd()
    raise Unsupported(what)


def fn(base, tab, off=0, canon=False):
    """tab[base - off]; caller guarantees off <= base < off + len(tab)."""
    base = simp(base)
    if type(base) is not SymInt:
        if not 0 <= base - off < len(tab):
            contradiction("a table index outside the table")
        return tab[base - off]
    # base = k*atom + c with a table atom: compose
    if len(base.t) == 1:
        i, k = base.t[0]
        a = ATOMS[i]
        if a.kind == "fn":
            c = base.c
            t2, o2 = a.args[1], a.args[2]
            inner = a.args[0].f
            n = []
            good = fn_values(a)
            for v in t2:
                j = k * v + c - off
                n.append(tab[j] if 0 <= j < len(tab) and v in good else (tab[0]))
            return fn(inner, tuple(n), o2, canon)
    # normalise argument to the primitive form, so that equal functions share atoms
    g, key = prim(base.t)
    if (g, base.c) != (1, 0):
        lo0, hi0 = key_bounds(key)
        p = SymInt(key, 0)
        n = []
        for v in range(lo0, hi0 + 1):
            j = g * v + base.c - off
            n.append(tab[j] if 0 <= j < len(tab) else tab[0])
        return fn(p, tuple(n), lo0, canon)
    d = form_dom(base)
    if d is None:
        raise Unsupported("table over a large range")
    if canon:
        lo, hi = min(d), max(d)
        ds = d if type(d) is not range else None
        n, first = [], None
        for v in range(lo, hi + 1):
            if 0 <= v - off < len(tab) and (ds is None or v in ds):
                first = tab[v - off]
            n.append(first)
        if n[0] is None:
            f0 = next((v for v in n if v is not None), 0)
            n = [f0 if v is None else v for v in n]
        tab, off = tuple(n), lo
    vals = [(v, tab[v - off]) for v in d if 0 <= v - off < len(tab)]
    if not vals:
        raise PathEnd()
    v0, y0 = vals[0]
    if all(y == y0 for _, y in vals):
        return y0
    v1, y1 = vals[1]
    if v1 != v0 and (y1 - y0) % (v1 - v0) == 0:
        s = (y1 - y0) // (v1 - v0)
        if all(y == y0 + s * (v - v0) for v, y in vals):
            return add(scale(base, s), y0 - s * v0)
    # canonical table: the full static range of the key at creation
    return of_atom(atom("fn", (FK(base), tab, off), min(tab), max(tab)))


def unify(x):
    """Combine several table atoms over the same argument into one."""
    if type(x) is not SymInt or len(x.t) < 2:
        return x
    groups = {}
    n = 0
    for i, k in x.t:
        a = ATOMS[i]
        if a.kind == "fn":
            n += 1
            groups.setdefault(a.args[0].k, []).append((i, k))
    if n < 1:
        return x
    d = None
    for bk, items in groups.items():
        extra = []
        base = ATOMS[items[0][0]].args[0].f
        if len(base.t) == 1 and base.c == 0 and base.t[0][1] == 1:
            bi = base.t[0][0]
            for i, k in x.t:
                if i == bi:
                    extra.append((i, k))
        if len(items) + len(extra) < 2:
            continue
        dv = form_dom(base)
        if dv is None:
            continue
        lo, hi = min(dv), max(dv)
        tab = []
        for v in range(lo, hi + 1):
            s = 0
            for i, k in items:
                a = ATOMS[i]
                j = v - a.args[2]
                s += k * (a.args[1][j] if 0 <= j < len(a.args[1]) else 0)
            for i, k in extra:
                s += k * v
            tab.append(s)
        y = fn(base, tuple(tab), lo)
        if type(y) is SymInt and len(y.t) == 1 and len(items) == 1 and ATOMS[y.t[0][0]].kind == "fn":
            continue            # mixing the variable itself with one table gains nothing
        if d is None:
            d, c = dict(x.t), x.c
        for i, k in items + extra:
            d.pop(i, None)
        if type(y) is SymInt:
            for i, k in y.t:
                d[i] = d.get(i, 0) + k
            c += y.c
        else:
            c += y
    return x if d is None else mk(d, c)


# -------------------------------------------------------------------- bit ops
def byte_of(x, i):
    """byte number i (little endian) of a non-negative form"""
    return mod(floordiv(x, 256 ** i), 256)


def onemask(x):
    """a mask of the bits that may be one in non-negative form x (sound over-approximation)"""
    if type(x) is not SymInt:
        return x
    lo, hi = bounds(x)
    full = (1 << hi.bit_length()) - 1
    if x.c < 0 or lo < 0:
        return full
    m = x.c
    for i, k in x.t:
        al, ah = key_bounds(((i, 1),))
        if k <= 0 or k & (k - 1) or al < 0:
            return full
        am = ((1 << ah.bit_length()) - 1)
        d = key_dom(((i, 1),))
        if d is not None and len(d) <= 64:
            am = 0
            for v in d:
                am |= v
        am *= k
        if m & am:
            return full
        m |= am
    return m & full


def bitop(op, a, b):
    a, b = simp(num(a)), simp(num(b))
    if type(a) is not SymInt and type(b) is not SymInt:
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    if type(a) is not SymInt:
        a, b = b, a
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if al < 0 and type(b) is not SymInt and op == "and" and b >= 0:
        n = b.bit_length()
        a = mod(a, 1 << n)
        return bitop(op, a, b)
    if al < 0 or bl < 0:
        # decide the sign
        if al < 0 and branch(rel_le(add(a, 1))) or bl < 0 and type(b) is SymInt and branch(rel_le(add(b, 1))):
            return {"and": lambda: concretize(a) & concretize(b), "or": lambda: concretize(a) | concretize(b),
                    "xor": lambda: concretize(a) ^ concretize(b)}[op]()
        if type(b) is not SymInt and bl < 0:
            if op == "and":      # a & ~m = a - (a & m)
                return sub(a, bitop("and", a, ~b))
            return {"or": lambda: concretize(a) | b, "xor": lambda: concretize(a) ^ b}[op]()
        (al, ah), (bl, bh) = bounds(a), bounds(b)
    if type(b) is not SymInt:
        if op == "and":
            if b == 0:
                return 0
            if (b + 1) & b == 0:
                return mod(a, b + 1)
            low = (b & -b).bit_length() - 1
            if low and ((b >> low) + 1) & (b >> low) == 0:
                return scale(mod(floordiv(a, 1 << low), (b >> low) + 1), 1 << low)
        elif b == 0:
            return a
    elif a._symkey() == b._symkey():
        return 0 if op == "xor" else a
    ma, mb = onemask(a), onemask(b)
    if ma & mb == 0:
        return 0 if op == "and" else add(a, b)
    n = (max(ah.bit_length(), bh.bit_length()) + 7) // 8
    if n == 1:
        return byteop(op, a, b)
    r = 0
    for i in range(n):
        r = add(r, scale(byteop(op, byte_of(a, i), byte_of(b, i)), 256 ** i))
    return r


_PYOP = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}


def byteop(op, a, b):
    a, b = simp(a), simp(b)
    if type(a) is not SymInt:
        a, b = b, a
    if type(a) is not SymInt:
        return _PYOP[op](a, b)
    if type(b) is not SymInt:
        if b == 0:
            return 0 if op == "and" else a
        if b == 255 and op != "xor":
            return a if op == "and" else 255
        if op == "xor":
            return xor_of([a], b)
        f = _PYOP[op]
        lo, hi = bounds(a)
        return fn(a, tuple(f(v, b) for v in range(lo, hi + 1)), lo)
    if op == "xor":
        return xor_of([a, b], 0)
    if (a.t, a.c) == (b.t, b.c):
        return a
    ma, mb = onemask(a), onemask(b)
    if ma & mb == 0:
        return 0 if op == "and" else add(a, b)
    if (b.t, b.c) < (a.t, a.c):
        a, b = b, a
    return of_atom(atom("bop", (op, FK(a), FK(b)), 0, 255))


def xor_of(ops, const):
    """normal form of xor of byte forms"""
    elems = {}
    work = list(ops)
    while work:
        x = simp(work.pop())
        if type(x) is not SymInt:
            const ^= x
            continue
        if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
            a = ATOMS[x.t[0][0]]
            if a.kind == "xor":
                work.extend(p.f for p in a.args[0])
                const ^= a.args[1]
                continue
            if a.kind == "fn":
                # table that is xor with a constant?
                tab, off = a.args[1], a.args[2]
                k = tab[0] ^ off
                if all((off + j) ^ k == v for j, v in enumerate(tab)):
                    work.append(a.args[0].f)
                    const ^= k
                    continue
        elif len(x.t) == 1 and x.t[0][1] == -1 and x.c == 255:
            work.append(sub(255, x))
            const ^= 255
            continue
        k = (x.t, x.c)
        if k in elems:
            del elems[k]
        else:
            elems[k] = x
    if not elems:
        return const
    if len(elems) == 1:
        x = next(iter(elems.values()))
        if const == 0:
            return x
        lo, hi = bounds(x)
        return fn(x, tuple(v ^ const for v in range(lo, hi + 1)), lo)
    fs = tuple(FK(elems[k]) for k in sorted(elems))
    return of_atom(atom("xor", (fs, const), 0, 255))


def bit_length(x):
    x = simp(x)
    if type(x) is not SymInt:
        return x.bit_length()
    lo, hi = bounds(x)
    if lo < 0:
        if branch(rel_le(add(x, 1))):
            return bit_length(scale(x, -1))
        lo, hi = bounds(x)
    if lo.bit_length() == hi.bit_length():
        return lo.bit_length()
    return of_atom(atom("bl", (FK(x),), 0, max(bounds0(x)[1], 0).bit_length()))


# ------------------------------------------------------------------ conditions
class SymBool:
    __slots__ = ("cond",)

    def __init__(self, cond):
        self.cond = cond

    @staticmethod
    def of(cond):
        return cond if isinstance(cond, bool) else SymBool(cond)

    def _symkey(self): return (self.cond,)
    def __bool__(self): return branch(self.cond)
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else SymBool.of(neg(self.cond))
        if isinstance(o, (int, SymInt, SymBool)):
            return int(bool(self)) == (int(bool(o)) if type(o) is SymBool else o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool.of(neg(r.cond)) if type(r) is SymBool else not r
    def __hash__(self): return hash(bool(self))
    def __and__(self, o):
        if isinstance(o, bool): return self if o else False
        if type(o) is SymBool: return SymBool.of(conj([self.cond, o.cond]))
        return int(bool(self)) & o
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, bool): return True if o else self
        if type(o) is SymBool: return SymBool.of(disj([self.cond, o.cond]))
        return int(bool(self)) | o
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)): return bool(self) ^ bool(o)
        return int(bool(self)) ^ o
    __rxor__ = __xor__
    def __invert__(self): return ~int(bool(self))
    def __add__(self, o): return add(self, o) if isnum(o) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return sub(self, o) if isnum(o) else NotImplemented
    def __rsub__(self, o): return sub(o, self) if isnum(o) else NotImplemented
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __lt__(self, o): return int(bool(self)) < o
    def __le__(self, o): return int(bool(self)) <= o
    def __gt__(self, o): return int(bool(self)) > o
    def __ge__(self, o): return int(bool(self)) >= o


def cond_of(x):
    """truth value of any python value as a condition (forks only for containers of symbols)"""
    if isinstance(x, bool):
        return x
    if type(x) is SymBool:
        return x.cond
    if type(x) is SymInt:
        return neg(rel_eq(x))
    return bool(x)


def neg(c):
    if isinstance(c, bool):
        return not c
    k = c[0]
    if k == "le": return ("ge", c[1], c[2] + 1)
    if k == "ge": return ("le", c[1], c[2] - 1)
    if k == "eq": return ("ne", c[1], c[2])
    if k == "ne": return ("eq", c[1], c[2])
    if k == "in": return ("nin", c[1], c[2])
    if k == "nin": return ("in", c[1], c[2])
    if k == "and": return disj([neg(x) for x in c[1]])
    if k == "or": return conj([neg(x) for x in c[1]])
    raise AssertionError(c)


def conj(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == "and":
            out.extend(c[1])
        else:
            out.append(c)
    seen, o2 = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            o2.append(c)
    for c in o2:
        if neg1(c) in seen:
            return False
    if not o2:
        return True
    return o2[0] if len(o2) == 1 else ("and", tuple(o2))


def neg1(c):
    return neg(c) if c[0] not in ("and", "or") else None


def disj(cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c[0] == "or":
            out.extend(c[1])
        else:
            out.append(c)
    seen, o2 = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            o2.append(c)
    for c in o2:
        if neg1(c) in seen:
            return True
    if not o2:
        return False
    return o2[0] if len(o2) == 1 else ("or", tuple(o2))


def member(x, pred):
    """condition  pred(x)  for a form with small domain"""
    g, key = prim(x.t)
    c = x.c
    if len(key) == 1:
        a = ATOMS[key[0][0]]
        if a.kind == "fn" and form_dom(a.args[0].f) is not None:
            tab, off = a.args[1], a.args[2]
            base = a.args[0].f
            return member(base, lambda v: 0 <= v - off < len(tab) and pred(g * tab[v - off] + c))
    d = key_dom(key)
    yes = frozenset(v for v in d if pred(g * v + c))
    if not yes:
        return False
    if len(yes) == len(d):
        return True
    return ("in", key, yes)


def rel_le(x):
    """x <= 0"""
    x = simp(num(x))
    if type(x) is not SymInt:
        return x <= 0
    lo, hi = bounds(x)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    if len(x.t) == 1:
        i, k = x.t[0]
        a = ATOMS[i]
        if a.kind == "div":
            L, m = a.args[0].f, a.args[1]
            if k > 0:                   # k*D + c <= 0  <=>  D <= t  <=> L < (t+1)*m
                t = (-x.c) // k
                return rel_le(sub(L, (t + 1) * m - 1))
            # -|k|*D + c <= 0 <=> D >= ceil(c/|k|)
            t = -((-x.c) // (-k))
            return rel_le(sub(t * m, L))
        if a.kind == "bl":
            L = a.args[0].f
            if k > 0:
                t = (-x.c) // k         # bl <= t <=> L <= 2^t - 1
                return False if t < 0 else rel_le(sub(L, (1 << t) - 1))
            t = -((-x.c) // (-k))       # bl >= t <=> L >= 2^(t-1)
            return True if t <= 0 else rel_le(sub(1 << (t - 1), L))
    d = form_dom(x)
    if d is not None:
        return member(x, lambda v: v <= 0)
    g, key = prim(x.t)
    if g > 0:
        return ("le", key, (-x.c) // g)
    return ("ge", key, -((-x.c) // (-g)))


def rel_eq(x):
    """x == 0"""
    x = simp(num(x))
    if type(x) is not SymInt:
        return x == 0
    lo, hi = bounds(x)
    if lo > 0 or hi < 0:
        return False
    g, key = prim(x.t)
    if x.c % g:
        return False
    if len(x.t) == 1:
        i, k = x.t[0]
        a = ATOMS[i]
        v = -x.c // k
        if a.kind == "div":
            L, m = a.args[0].f, a.args[1]
            return conj([rel_le(sub(v * m, L)), rel_le(sub(L, v * m + m - 1))])
        if a.kind == "bl":
            L = a.args[0].f
            if v < 0:
                return False
            if v == 0:
                return rel_le(L)
            return conj([rel_le(sub(1 << (v - 1), L)), rel_le(sub(L, (1 << v) - 1))])
    d = form_dom(x)
    if d is not None and (len(x.t) == 1 or key in CTX.modreg or key in CTX.dom):
        return member(x, lambda v: v == 0)
    if len(x.t) > 1:
        if x.c == 0:
            # sum of non-negative terms
            if all((k > 0) == (x.t[0][1] > 0) and key_bounds(((i, 1),))[0] >= 0 for i, k in x.t):
                return conj([rel_eq(SymInt(((i, 1),), 0)) for i, _ in x.t])
        s = split_eq(x)
        if s is not None:
            return s
    return ("eq", key, -x.c // g)


def split_eq(x):
    """g*H + L == 0 with |L| < g  <=>  H == 0 and L == 0"""
    items = sorted(x.t, key=lambda p: -abs(p[1]))
    g = 0
    for n in range(1, len(items)):
        g = gcd(g, items[n - 1][1])
        if g == 1:
            return None
        if abs(items[n][1]) >= g:
            continue
        low0 = mk(dict(items[n:]), 0)
        l, h = bounds(low0)
        # choose the representative r of the constant so that low + r stays inside (-g, g)
        for r in (x.c % g, x.c % g - g):
            if -g < l + r and h + r < g:
                high = mk({i: k // g for i, k in items[:n]}, (x.c - r) // g)
                return conj([rel_eq(high), rel_eq(add(low0, r))])
    return None


def simplify(c):
    """evaluate a condition under the knowledge of the current path"""
    if isinstance(c, bool):
        return c
    d = CTX.decided.get(c)
    if d is not None:
        return d
    k = c[0]
    if k == "and":
        return conj([simplify(x) for x in c[1]])
    if k == "or":
        return disj([simplify(x) for x in c[1]])
    key = c[1]
    lo, hi = key_bounds(key)
    if k in ("in", "nin"):
        dm = CTX.dom.get(key)
        vals = c[2]
        if dm is not None:
            n = sum(1 for v in dm if v in vals)
            if n == 0:
                return k == "nin"
            if n == len(dm):
                return k == "in"
        elif not any(lo <= v <= hi for v in vals):
            return k == "nin"
        elif all(v in vals for v in range(lo, hi + 1)):
            return k == "in"
        return c
    v = c[2]
    if k == "le":
        if hi <= v: return True
        if lo > v: return False
    elif k == "ge":
        if lo >= v: return True
        if hi < v: return False
    elif k == "eq":
        if lo > v or hi < v: return False
        if lo == hi == v: return True
    elif k == "ne":
        if lo > v or hi < v: return True
        if lo == hi == v: return False
    # re-normalise when atoms became constant
    f = simp(SymInt(key, 0))
    if type(f) is not SymInt or f.t != key:
        r = sub(f, v)
        if k == "le": return rel_le(r)
        if k == "ge": return rel_le(scale(r, -1))
        if k == "eq": return rel_eq(r)
        return neg(rel_eq(r))
    return c


def assert_fact(c):
    if c is True:
        return
    if c is False:
        raise PathEnd()
    x = CTX
    if c[0] == "and":
        for s in c[1]:
            assert_fact(s)
        x.decided[c] = True
        x.decided[neg(c)] = False
        return
    if x.decided.get(c) is True:
        return
    x.facts.append(c)
    x.decided[c] = True
    n = neg(c)
    if not isinstance(n, bool):
        x.decided[n] = False
    k, key = c[0], c[1]
    if k == "or":
        return
    if k in ("in", "nin"):
        d = x.dom.get(key)
        if d is None:
            d = key_dom(key)
        if d is not None:
            d = frozenset(v for v in d if (v in c[2]) == (k == "in"))
            if not d:
                raise PathEnd()
            x.dom[key] = d
        elif k == "in":
            x.dom[key] = frozenset(c[2])
    else:
        lo, hi = key_bounds(key)
        v = c[2]
        if k == "le": hi = min(hi, v)
        elif k == "ge": lo = max(lo, v)
        elif k == "eq": lo, hi = max(lo, v), min(hi, v)
        elif k == "ne":
            if lo == v: lo += 1
            if hi == v: hi -= 1
            if lo <= v <= hi and hi - lo <= DOMMAX:
                d = key_dom(key)
                x.dom[key] = frozenset(w for w in d if w != v)
        if lo > hi:
            raise PathEnd()
        x.bounds[key] = (lo, hi)
        d = x.dom.get(key)
        if d is not None:
            d = frozenset(w for w in d if lo <= w <= hi)
            if not d:
                raise PathEnd()
            x.dom[key] = d
    x.bcache.clear()


def taken(c):
    """the recorded decision of this point of a path that is being replayed, or None"""
    x = CTX
    n = len(x.trace)
    if n >= len(x.prefix):
        return None
    e = x.prefix[n]
    if e[2] != sig(c):
        raise Unsupported("replayed path diverged")
    return e


def sig(c):
    return hash(c) & 0xffffffff


def branch(c):
    c = simplify(c)
    if isinstance(c, bool):
        return c
    c = simplify(renorm_cond(c))
    if isinstance(c, bool):
        return c
    x = CTX
    x.stats.branches += 1
    n = len(x.trace)
    e = taken(c)
    if e is not None:
        d, alt = e[0], e[1]
    else:
        lim = x.limits.get("branches", 4000)
        if n > lim:
            raise Budget(f"more than {lim} decisions on one path")
        if x.limits.get("deadline") and time.time() > x.limits["deadline"]:
            raise Budget("time limit")
        t = feasible(c)
        f = True if t is False else feasible(neg(c))
        if t is False and f is False:
            raise PathEnd()
        d = t is not False
        alt = (t is not False) and (f is not False)
        if alt and x.limits.get("single"):
            alt = False
            x.note_incomplete("single path mode")
    x.trace.append((d, alt, sig(c)))
    assert_fact(c if d else neg(c))
    for i, pair in x.equalities:
        if x.bounds.get(((i, 1),), (0, 1))[0] == 1:
            raise Identify(*pair)
    return d


def assume(c):
    c = simplify(c if type(c) is tuple else cond_of(c))
    if c is True:
        return
    if c is False:
        raise PathEnd()
    x = CTX
    e = taken(c)
    if e is not None:
        x.trace.append(e)
    else:
        if feasible(c) is False:
            raise PathEnd()
        x.trace.append((True, False, sig(c)))
    assert_fact(c)


def concretize(x, limit=None):
    """fork over the possible values of x (bounded); falls back to one solver-chosen value"""
    x = simp(num(x))
    if type(x) is not SymInt:
        return x
    limit = limit or CTX.limits.get("concretize", 300)
    d = form_dom(x)
    if d is not None and len(d) <= limit:
        d = sorted(d)
        while len(d) > 1:            # binary search over the values: few decisions per path
            m = len(d) // 2
            low = set(d[:m])
            if branch(member(x, lambda v: v in low)):
                d = d[:m]
            else:
                d = d[m:]
        assume(SymBool.of(rel_eq(sub(x, d[0]))))
        return d[0]
    v = bl_groups(x)
    if v is not None:
        return v
    CTX.note_incomplete("an integer with a large range was fixed to one solver-chosen value")
    c = CTX
    n = len(c.trace)
    if n < len(c.prefix):
        v = c.prefix[n][0]
        if c.prefix[n][2] != 0:
            raise Unsupported("replayed path diverged")
        c.trace.append(c.prefix[n])
    else:
        r = check(c.facts, [], forms=[x])
        if r[0] != "sat":
            raise Unsupported("no model to fix an integer")
        v = evaluate_form(x, r[1])
        c.trace.append((v, False, 0))
    assert_fact(simplify(rel_eq(sub(x, v))))
    return v


def bl_groups(x):
    """x is a function of one bit-length atom: fork over groups of equal value"""
    leaf = None
    for i in form_cone(x):
        a = ATOMS[i]
        if a.kind == "bl":
            if leaf is not None and leaf is not a:
                return None
            leaf = a
    if leaf is None:
        return None
    inner = form_cone(leaf.args[0].f)
    for i in form_cone(x):
        if ATOMS[i] is not leaf and i not in inner and ATOMS[i].kind not in ("div", "fn"):
            return None
    lo, hi = key_bounds(((leaf.id, 1),))
    groups = {}
    for v in range(lo, hi + 1):
        y = eval_with(x, {leaf.id: v})
        groups.setdefault(y, []).append(v)
    L = leaf.args[0].f
    vals = sorted(groups)
    for y in vals[:-1]:
        vs = groups[y]
        if vs != list(range(vs[0], vs[-1] + 1)):
            return None
        cs = [rel_le(sub(L, (1 << vs[-1]) - 1))]
        if vs[0] > 0:
            cs.append(rel_le(sub(1 << (vs[0] - 1), L)))
        if branch(conj(cs)):
            return y
    return vals[-1]


def eval_with(x, env):
    return evaluate_form(x, Model(env))


# ------------------------------------------------------------------- evaluation
class Model:
    """Assignment of atoms; evaluates the rest. `uf` gives real functions for apps."""

    def __init__(self, vals, uf=None, default=None):
        self.vals = dict(vals)
        self.uf = uf
        self.default = default
        self.cache = {}
        self.appvals = {}

    def atom(self, i):
        if i in self.vals:
            return self.vals[i]
        r = self.cache.get(i)
        if r is None:
            r = self.cache[i] = self._atom(ATOMS[i])
        return r

    def form(self, f):
        if type(f) is not SymInt:
            return f
        s = f.c
        for i, k in f.t:
            s += k * self.atom(i)
        return s

    def _atom(self, a):
        k = a.kind
        if k == "div":
            return self.form(a.args[0].f) // a.args[1]
        if k == "fn":
            v = self.form(a.args[0].f) - a.args[2]
            return a.args[1][v] if 0 <= v < len(a.args[1]) else a.args[1][0]
        if k == "xor":
            r = a.args[1]
            for p in a.args[0]:
                r ^= self.form(p.f)
            return r
        if k == "bop":
            return _PYOP[a.args[0]](self.form(a.args[1].f), self.form(a.args[2].f))
        if k == "mul":
            return self.form(a.args[0].f) * self.form(a.args[1].f)
        if k == "bl":
            return self.form(a.args[0].f).bit_length()
        if k == "uf" and self.uf is not None:
            return self.uf(self, a)
        if self.default is not None:
            return self.default(a)
        raise KeyError(a)


def evaluate_form(x, m):
    return m.form(x)


def eval_cond(c, m):
    if isinstance(c, bool):
        return c
    k = c[0]
    if k == "and": return all(eval_cond(x, m) for x in c[1])
    if k == "or": return any(eval_cond(x, m) for x in c[1])
    v = m.form(SymInt(c[1], 0))
    if k == "le": return v <= c[2]
    if k == "ge": return v >= c[2]
    if k == "eq": return v == c[2]
    if k == "ne": return v != c[2]
    if k == "in": return v in c[2]
    return v not in c[2]


# ---------------------------------------------------------------- cones
def atom_children(a):
    k = a.kind
    if k == "div" or k == "fn" or k == "bl":
        return [a.args[0].f]
    if k == "xor":
        return [p.f for p in a.args[0]]
    if k == "bop":
        return [a.args[1].f, a.args[2].f]
    if k == "mul":
        return [a.args[0].f, a.args[1].f]
    return []


def atom_cone(i):
    a = ATOMS[i]
    if a.cone is None:
        s = {i}
        for f in atom_children(a):
            if type(f) is SymInt:
                for j, _ in f.t:
                    s |= atom_cone(j)
        a.cone = frozenset(s)
    return a.cone


def form_cone(f):
    s = set()
    if type(f) is SymInt:
        for i, _ in f.t:
            s |= atom_cone(i)
    return s


_CCONE = {}


def cond_cone(c):
    if isinstance(c, bool):
        return frozenset()
    r = _CCONE.get(c)
    if r is None:
        if c[0] in ("and", "or"):
            s = set()
            for x in c[1]:
                s |= cond_cone(x)
        else:
            s = set()
            for i, _ in c[1]:
                s |= atom_cone(i)
        r = frozenset(s)
        if len(_CCONE) > 200000:
            _CCONE.clear()
        _CCONE[c] = r
    return r


def slice_facts(facts, cone):
    """facts that share an atom (transitively) with the cone"""
    cone = set(cone)
    rest = list(facts)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for f in rest:
            fc = cond_cone(f)
            if not fc.isdisjoint(cone):
                out.append(f)
                cone |= fc
                changed = True
            else:
                keep.append(f)
        rest = keep
    return out, cone


# ---------------------------------------------------------------- z3 lowering
_ZV = {}


def zvar(i):
    v = _ZV.get(i)
    if v is None:
        v = _ZV[i] = z3.Int(f"a{i}")
    return v


_ZFORM = {}
_ZCOND = {}


def zform(f):
    if type(f) is not SymInt:
        return z3.IntVal(f)
    r = _ZFORM.get(f.t)
    if r is None:
        if len(_ZFORM) > 60000:
            _ZFORM.clear()
        r = _ZFORM[f.t] = _zform(SymInt(f.t, 0))
    return r + f.c if f.c else r


def _zform(f):
    ts = [zvar(i) if k == 1 else z3.IntVal(k) * zvar(i) for i, k in f.t]
    if f.c:
        ts.append(z3.IntVal(f.c))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def runs(vals):
    vs = sorted(vals)
    out = []
    for v in vs:
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


def zin(e, vals):
    cs = []
    for a, b in runs(vals):
        cs.append(e == a if a == b else z3.And(e >= a, e <= b))
    return cs[0] if len(cs) == 1 else z3.Or(cs)


def zcond(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    r = _ZCOND.get(c)
    if r is None:
        if len(_ZCOND) > 60000:
            _ZCOND.clear()
        r = _ZCOND[c] = _zcond(c)
    return r


def _zcond(c):
    k = c[0]
    if k == "and": return z3.And([zcond(x) for x in c[1]])
    if k == "or": return z3.Or([zcond(x) for x in c[1]])
    e = zform(SymInt(c[1], 0))
    if k == "le": return e <= c[2]
    if k == "ge": return e >= c[2]
    if k == "eq": return e == c[2]
    if k == "ne": return e != c[2]
    if k == "in": return zin(e, c[2])
    return z3.Not(zin(e, c[2]))


_ZDEF = {}


def zdef(i):
    """definitional constraints of atom i (path independent)"""
    r = _ZDEF.get(i)
    if r is not None:
        return r
    a = ATOMS[i]
    v = zvar(i)
    cs = [v >= a.lo, v <= a.hi]
    k = a.kind
    if k == "div":
        L, m = zform(a.args[0].f), a.args[1]
        cs += [L - m * v >= 0, L - m * v <= m - 1]
    elif k == "fn":
        base, tab, off = zform(a.args[0].f), a.args[1], a.args[2]
        # affine pieces
        pieces = []
        for j, y in enumerate(tab):
            x = off + j
            if pieces and pieces[-1][2] == y - x and pieces[-1][1] == x - 1:
                pieces[-1][1] = x
            else:
                pieces.append([x, x, y - x])
        const = []
        for j, y in enumerate(tab):
            x = off + j
            if const and const[-1][2] == y and const[-1][1] == x - 1:
                const[-1][1] = x
            else:
                const.append([x, x, y])
        cs += [base >= off, base <= off + len(tab) - 1]
        if len(const) < len(pieces):
            for lo, hi, y in const:
                cs.append(z3.Implies(z3.And(base >= lo, base <= hi), v == y))
        else:
            for lo, hi, s in pieces:
                cs.append(z3.Implies(z3.And(base >= lo, base <= hi), v == base + s))
    elif k == "xor" or k == "bop":
        if k == "xor":
            ops = [p.f for p in a.args[0]]
            if a.args[1]:
                ops.append(a.args[1])
        else:
            ops = [a.args[1].f, a.args[2].f]
        bits = []
        n = 8
        for o in ops:
            if type(o) is not SymInt:
                bits.append([z3.BoolVal(bool(o >> j & 1)) for j in range(n)])
            else:
                bs, d = zbits(o, n)
                cs += d
                bits.append(bs)
        vb, d = zbits(of_atom(a), n)
        cs += d
        for j in range(n):
            col = [b[j] for b in bits]
            if k == "xor":
                e = col[0]
                for y in col[1:]:
                    e = z3.Xor(e, y)
            else:
                e = z3.And(col) if a.args[0] == "and" else z3.Or(col)
            cs.append(vb[j] == e)
    elif k == "mul":
        cs.append(v == zform(a.args[0].f) * zform(a.args[1].f))
    elif k == "bl":
        L = zform(a.args[0].f)
        for n in range(0, a.hi + 1):
            lo = 0 if n == 0 else 1 << (n - 1)
            cs.append(z3.Implies(z3.And(L >= lo, L <= (1 << n) - 1), v == n))
    _ZDEF[i] = cs
    return cs


_ZBITS = {}


def zbits(f, n):
    k = (f.t, f.c, n)
    r = _ZBITS.get(k)
    if r is None:
        bs = [z3.Bool(f"b{len(_ZBITS)}_{j}") for j in range(n)]
        d = [zform(f) == z3.Sum([z3.If(b, z3.IntVal(1 << j), z3.IntVal(0)) for j, b in enumerate(bs)])]
        r = _ZBITS[k] = (bs, d)
    return r


def check(facts, conds, forms=(), timeout=None, extra=(), extra_cone=(), full=False, want_model=True):
    """satisfiability of facts+conds. -> ('sat', Model) | ('unsat', None) | ('unknown', None)"""
    st = CTX.stats
    cone = set(extra_cone)
    for c in conds:
        cone |= cond_cone(c)
    for f in forms:
        cone |= form_cone(f)
    if full:
        use = list(facts)
        for f in use:
            cone |= cond_cone(f)
    else:
        use, cone = slice_facts(facts, cone)
    s = z3.Solver()
    s.set("timeout", int((timeout or CTX.limits.get("query", 20)) * 1000))
    for i in sorted(cone):
        for d in zdef(i):
            s.add(d)
    for f in use:
        s.add(zcond(f))
    for c in conds:
        s.add(zcond(c))
    for e in extra:
        s.add(e)
    t0 = time.time()
    r = s.check()
    st.solver_time += time.time() - t0
    st.queries += 1
    if r == z3.unsat:
        st.unsat += 1
        return "unsat", None
    if r == z3.unknown:
        st.unknown += 1
        return "unknown", None
    st.sat += 1
    if not want_model:
        return "sat", None
    m = s.model()
    vals = {}
    for i in cone:
        z = m.eval(zvar(i), model_completion=True)
        vals[i] = z.as_long()
    return "sat", Model(vals)


_FEAS = {}
_MODELS = []


def feasible(c):
    """True / False / None(unknown; treated as feasible)"""
    c = simplify(c)
    if isinstance(c, bool):
        return c
    use, cone = slice_facts(CTX.facts, cond_cone(c))
    k = (c, frozenset(use))
    r = _FEAS.get(k)
    if r is None:
        if quick_sat(use, c, cone):
            r = "sat"
        else:
            r, m = check(use, [c], full=True)
            if m is not None:
                _MODELS.insert(0, {i: v for i, v in m.vals.items() if ATOMS[i].kind in ("var", "uf")})
                del _MODELS[40:]
        _FEAS[k] = r
    return False if r == "unsat" else True if r == "sat" else None


_RND = __import__("random").Random(12345)


def quick_sat(use, c, cone):
    """try a few concrete assignments of the leaves before asking the solver"""
    leaves = [i for i in cone if ATOMS[i].kind in ("var", "uf")]
    if len(leaves) > 400:
        return False
    for n, mv in enumerate(_MODELS):
        if leaves and leaves[0] in mv and leaves[-1] in mv:
            m = Model(mv, default=lambda a: a.lo)
            try:
                if eval_cond(c, m) and all(eval_cond(f, m) for f in use):
                    if n > 4:
                        _MODELS.insert(0, _MODELS.pop(n))
                    return True
            except (KeyError, IndexError):
                pass
    for trial in range(6):
        env = {}
        for i in leaves:
            key = ((i, 1),)
            lo, hi = key_bounds(key)
            d = CTX.dom.get(key)
            if d is not None:
                env[i] = _RND.choice(sorted(d))
            elif trial == 0:
                env[i] = lo
            elif trial == 1:
                env[i] = hi
            else:
                env[i] = _RND.randint(lo, hi)
        m = Model(env)
        try:
            if eval_cond(c, m) and all(eval_cond(f, m) for f in use):
                return True
        except (KeyError, IndexError):
            return False
    return False


RESET += [ATOMS, _TABLE, APPS, _APPTABLE, _CCONE, _ZV, _ZFORM, _ZCOND, _ZDEF, _ZBITS, _FEAS, _MODELS]
