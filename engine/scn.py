"""Scenarios: one source, executed symbolically (here) and natively (native.py)."""
import hashlib
import os
import random
import time
import traceback

from . import core, values, instrument, stubs, words
from .core import (Ctx, SymInt, SymBool, EngineStop, PathEnd, Unsupported, Budget, atom, of_atom, simplify, cond_of, neg,
                   conj, disj, check, eval_cond, Model)
from .values import SymBytes, SymByteArray, SymStr, Opaque, mk_bytes, mk_str, is_sym, has_sym

REPO = os.environ.get("VERIF_REPO", "/repo")
HUNGRY = None            # set in worker processes: are other workers without work?


class Outcome:
    """Result of a call: a value, or an exception."""
    _is_model = True

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def kind(self):
        return None if self.exc is None else type(self.exc).__name__

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        return f"value {self.value!r}" if self.ok else f"{type(self.exc).__name__}: {self.exc}"


class Candidate(Exception):
    pass


class S:
    """Symbolic backend of a scenario."""
    _is_model = True
    native = False

    def __init__(self, lib, case, opts):
        self.lib, self.case, self.opts = lib, case, opts
        self.candidates = []
        self.labels = set()
        self.asserted = 0

    # -- inputs
    def _var(self, name, lo, hi):
        return of_atom(atom("var", ("in", name), lo, hi, name))

    def _reg(self, name, kind, v):
        core.CTX.inputs[name] = (kind, v)
        return v

    def bytes(self, name, n):
        fixed = self.opts.get("fixed", {}).get(name)
        if fixed is not None:
            return self._reg(name, "bytes", fixed)
        return self._reg(name, "bytes", mk_bytes([self._var(f"{name}[{i}]", 0, 255) for i in range(n)]))

    def int(self, name, lo, hi):
        fixed = self.opts.get("fixed", {}).get(name)
        if fixed is not None:
            return self._reg(name, "int", fixed)
        if lo == hi:
            return lo
        return self._reg(name, "int", self._var(name, lo, hi))

    def chars(self, name, n, lo=0, hi=0x10ffff):
        return self._reg(name, "str", mk_str([self._var(f"{name}[{i}]", lo, hi) for i in range(n)]))

    def pick(self, name, alphabet, n):
        """text of n characters of a given alphabet"""
        tab = tuple(map(ord, alphabet))
        out = []
        for i in range(n):
            v = self._var(f"{name}[{i}]", 0, len(tab) - 1)
            out.append(core.fn(v, tab, 0))
        return self._reg(name, "str", mk_str(out))

    def text(self, name):
        fixed = self.opts.get("texts")
        if fixed is not None:
            return self._reg(name, "text", fixed[hash_index(name, self.opts, len(fixed))])
        # texts that were found equal on this path (core.Identify)
        for how, names in self.opts.get("merged", ()):
            if name in names:
                first = next((n for n in core.CTX.inputs if n in names), name)
                if how == "same":
                    return self._reg(name, "text" if first == name else "text same " + first, Opaque("str", "in", first))
                k = sum(n in names for n in core.CTX.inputs)
                return self._reg(name, f"text canon {first} {k}", Opaque("str", "canon", first, k))
        return self._reg(name, "text", Opaque("str", "in", name))

    def equivalent_texts(self, name, k=2):
        """k texts with one common NFC form"""
        fixed = self.opts.get("texts")
        if fixed is not None:
            import unicodedata
            t = fixed[hash_index(name, self.opts, len(fixed))]
            fs = ["NFC", "NFD", None]
            return [self._reg(f"{name}.{i}", "text", unicodedata.normalize(fs[i], t) if fs[i] else t) for i in range(k)]
        return [self._reg(f"{name}.{i}", "text", Opaque("str", "canon", name, i)) for i in range(k)]

    def choose(self, name, options):
        """one of several concrete alternatives (forks)"""
        options = list(options)
        i = self._reg(name, "int", self._var(name, 0, len(options) - 1)) if len(options) > 1 else 0
        return options[core.concretize(i)]

    # -- control
    def assume(self, c):
        core.assume(cond_of(c))

    def reach(self, label):
        self.labels.add(label)

    def call(self, f, /, *a, **k):
        try:
            return Outcome(True, instrument.sx_call(f, *a, **k))
        except Exception as e:
            if os.environ.get("SX_TRACE"):
                traceback.print_exc()
            return Outcome(False, exc=e)

    # -- assertions
    def same(self, a, b):
        return SymBool.of(same(a, b))

    def all(self, *cs):
        return SymBool.of(conj([cond_of(c) for c in cs]))

    def any(self, *cs):
        return SymBool.of(disj([cond_of(c) for c in cs]))

    def no(self, c):
        return SymBool.of(neg(cond_of(c)))

    def check(self, cond, label, **info):
        self.asserted += 1
        st = core.CTX.stats
        st.asserts += 1
        c = simplify(cond_of(cond))
        if not isinstance(c, bool):
            c = simplify(core.renorm_cond(c))
        if c is True:
            st.trivial += 1
            return
        x = core.CTX
        e = core.taken(("assert", c))
        if e is not None:             # decided when the path was first explored
            x.trace.append(e)
            if c is False:
                raise PathEnd()
            core.assert_fact(c)
            return
        r, m = decide(neg(c), dict(self.opts, final=8, refine=8) if self.candidates else self.opts)
        if r == "sat" and words.BYTES:
            m = next((w for w in words.models() if not eval_cond(c, w)), None)
            r = "sat" if m is not None else "unknown"
        x.trace.append((True, False, core.sig(("assert", c))))
        if r == "unsat":
            core.assert_fact(c)
            return
        self.note(neg(c), label, r, m)
        x.limits["query"] = min(x.limits.get("query", 20), 5)
        if len(self.candidates) >= 3:
            raise Budget("path ended after three failed assertions")
        # go on under the assumption that the assertion holds
        if c is False or core.feasible(c) is False:
            raise PathEnd()
        core.assert_fact(c)

    def candidate(self, c, label, note=None):
        """inputs that lead here"""
        r, m = decide(c, self.opts)
        if r != "unsat":
            self.note(c, label, r, m)
            if note:
                self.candidates[-1]["trace"] = note

    def note(self, c, label, r, m):
        cand = dict(label=label, status=r, inputs={}, tables=[], env=[])
        if m is not None:
            cand["inputs"] = input_values(m)
            cand["env"] = env_values(m)
            try:
                cand["tables"] = tables(m, [c])
            except Exception as e:
                cand["tables_error"] = repr(e)
        self.candidates.append(cand)

    def fail(self, label):
        self.check(False, label)

    # -- environment
    def env(self):
        return [(s, n, b) for s, n, b in core.CTX.envlog]

    def words(self):
        """from here on, four bytes read as an integer are a 32-bit word"""
        words.enable()

    def no_ripemd(self):
        """the platform's hash library lacks RIPEMD-160"""
        stubs.hide_ripemd()

    def fresh(self):
        """another, freshly loaded instance of the package"""
        return instrument.Library(REPO)


def hash_index(name, opts, n):
    return opts.get("text_index", 0) % n


def same(a, b):
    """structural equality as a condition"""
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return conj([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return conj([same(a[k], b[k]) for k in a])
    ta, tb = instrument.real_type(a), instrument.real_type(b)
    if ta is bytearray: ta = bytes
    if tb is bytearray: tb = bytes
    if ta is bool: ta = int
    if tb is bool: tb = int
    if ta is not tb:
        return False
    if type(a) in (SymInt, SymBool) or type(b) in (SymInt, SymBool):
        return core.rel_eq(core.sub(core.num(a), core.num(b)))
    r = a == b
    if r is NotImplemented:
        return False
    return cond_of(r)


# ------------------------------------------------------------------- deciding
_SIM = random.Random(7)


def sim_uf(m, a):
    """the real function, except for the slow one and for unknown texts"""
    p, i = a.args
    name = p.fn if isinstance(p.fn, str) else p.fn[0]
    if name in stubs.REAL and name != "scrypt":
        return stubs.uf_value(m, a)
    if name in ("ecx", "ecy", "oncurve_x", "oncurve_xy", "lifty"):
        return stubs.uf_value(m, a)
    if p.id not in m.appvals:
        d = repr((p.fn, argvals(p.args, m))).encode()
        m.appvals[p.id] = d
    h = hashlib.sha256(m.appvals[p.id] + b"%d" % (i // 32)).digest()
    return a.lo + h[i % 32] % (a.hi - a.lo + 1)


def simulate(c, facts):
    """a model of facts and c among a few concrete assignments, with the real primitives"""
    cone = core.cond_cone(c)
    for f in facts:
        cone = cone | core.cond_cone(f)
    for trial in range(8):
        base = core._MODELS[(trial - 4) * 2] if trial >= 4 and len(core._MODELS) > (trial - 4) * 2 else {}
        if trial >= 4 and not base:
            break
        vals = {}

        def leaf(a):
            if a.kind != "var":
                raise KeyError(a)
            d = core.CTX.dom.get(((a.id, 1),))
            if trial < 4 and d is not None:
                return _SIM.choice(sorted(d))
            lo, hi = core.key_bounds(((a.id, 1),))
            return lo if trial == 0 and hi - lo > 255 else _SIM.randint(lo, hi)
        for i, v in base.items():
            if core.ATOMS[i].kind == "var":
                vals[i] = v
        m = Model(vals, uf=sim_uf, default=leaf)
        try:
            if not eval_cond(c, m) or not all(eval_cond(f, m) for f in facts):
                continue
            for i in cone:
                m.atom(i)
            if axioms(m, facts, [c], set()):
                continue
            done = Model({**{i: m.atom(i) for i in cone}}, default=m.default)
            done.appvals, done.uf = m.appvals, sim_uf
            return done
        except (KeyError, IndexError, EngineStop, stubs.NotOnCurve, ZeroDivisionError, ValueError):
            continue
    return None


def decide(c, opts):
    """is  facts and c  satisfiable once the functions are functions?  (CEGAR on congruence)"""
    if c is False:
        return "unsat", None
    facts = core.CTX.facts
    m = simulate(c, facts)
    if m is not None:
        return "sat", m
    r, m = check(facts, [c])                 # cheap: sliced, uninterpreted outputs free
    if r == "unsat":
        return "unsat", None
    extra = []
    seen = set()
    for _ in range(opts.get("refine", 40)):
        r, m = check(facts, [c] + extra, full=True, timeout=opts.get("final", 60))
        if r != "sat":
            return r, None
        new = axioms(m, facts, [c] + extra, seen)
        if not new:
            return "sat", pinned(facts, [c] + extra, complete(m), seen, opts)
        extra += new
    return "unknown", None


def pinned(facts, conds, m, seen, opts):
    """the model with the curve arithmetic replaced by the real one, when that can be had"""
    first = m
    pins, done = [], set()
    for _ in range(200):
        new = None
        for p, idxs in sorted(cone_apps(facts, conds).values(), key=lambda x: x[0].id):
            if p.id in done or p.fn not in ("ecx", "ecy", "lifty", "oncurve_x", "oncurve_xy"):
                continue
            new = ground(p, idxs, m)
            done.add(p.id)
            if new is None:
                return first
            break
        if new is None:
            return m
        pins += new
        for _ in range(10):
            r, m2 = check(facts, conds + pins, full=True, timeout=opts.get("final", 60))
            if r != "sat":
                return first
            ax = axioms(m2, facts, conds + pins, seen)
            if not ax:
                break
            conds = conds + ax
        m = complete(m2)
    return first


def ground(p, idxs, m):
    """constraints that fix the arguments of a curve application to their model values and the
    outputs to the real ones"""
    if p.fn in ("oncurve_x", "oncurve_xy") and m.atom(uf_id(p, 0)) == 1:
        new = near_curve(p, m)
        if new is not None:
            return new
    leaves = set()
    if p.fn in ("ecx", "ecy"):
        for mono in stubs.POLYS[p.args[0]]:
            for t in mono:
                if type(t) is tuple:
                    for x in stubs.PTS[t[1]][1]:
                        leaves |= {i for i, _ in x.t} if type(x) is SymInt else set()
                else:
                    leaves.add(t)
    else:
        for x in flat_args(p.args):
            leaves |= {i for i, _ in x.t}
    cs = [core.rel_eq(core.sub(SymInt(((i, 1),), 0), m.atom(i))) for i in sorted(leaves)]
    mm = Model({i: m.atom(i) for i in leaves}, default=lambda a: a.lo)
    if p.fn == "lifty":
        for kind, codes in stubs.PTS:
            if kind == "c" and core.argkey(tuple(codes[1:])) == core.argkey(p.args[0]):
                mm.__dict__["lift_par"] = {p.id: m.form(codes[0])}
                if type(codes[0]) is SymInt:
                    cs.append(core.rel_eq(core.sub(codes[0], m.form(codes[0]))))
    try:
        outs = [stubs.uf_value(mm, core.ATOMS[core.atom("uf", (p, i), 0, 255).id]) for i in sorted(idxs)]
    except (KeyError, stubs.NotOnCurve, EngineStop):
        return None
    cs += [core.rel_eq(core.sub(uf_form(p, i), v)) for i, v in zip(sorted(idxs), outs)]
    return [c for c in cs if c is not True]


def near_curve(p, m):
    """the model asks for coordinates on the curve: constraints that give real ones near its values"""
    v = bytes(m.form(x) if type(x) is SymInt else x for x in p.args[0])
    for d in range(40):
        x = v[:31] + bytes([(v[31] + d) % 256])
        try:
            q = stubs.VerifyingKey.from_string(bytes([2 + (v[-1] & 1)]) + x, curve=stubs.curves.SECP256k1).pubkey.point
        except stubs.MalformedPointError:
            continue
        w = x if p.fn == "oncurve_x" else x + int(q.y()).to_bytes(32, "big")
        if w == v:
            return None
        cs = [core.rel_eq(core.sub(c, b)) for c, b in zip(p.args[0], w)]
        return None if any(c is False for c in cs) else [c for c in cs if c is not True]
    return None


def complete(m):
    m.default = lambda a: a.lo
    return m


def cone_apps(facts, conds):
    cone = set()
    for f in list(facts) + list(conds):
        cone |= core.cond_cone(f)
    apps = {}
    work = [i for i in cone if core.ATOMS[i].kind == "uf"]
    seen = set(cone)
    while work:
        a = core.ATOMS[work.pop()]
        p, idx = a.args
        apps.setdefault(p.id, (p, set()))[1].add(idx)
        for x in flat_args(p.args):
            for i in core.form_cone(x):
                if i not in seen:
                    seen.add(i)
                    if core.ATOMS[i].kind == "uf":
                        work.append(i)
    return apps


def flat_args(args):
    for x in args:
        if type(x) is tuple:
            yield from flat_args(x)
        elif type(x) is SymInt:
            yield x
        elif type(x) is Opaque:
            yield from flat_args(x.args)


def argvals(args, m):
    out = []
    for x in args:
        if type(x) is tuple:
            out.append(argvals(x, m))
        elif type(x) is SymInt:
            out.append(m.form(x))
        elif type(x) is Opaque:
            out.append(("opaque", x.kind, x.op) + argvals(x.args, m))
        else:
            out.append(x)
    return tuple(out)


def args_equal(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if type(x) is tuple and type(y) is tuple:
            cs.append(args_equal(x, y))
        elif isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt)):
            cs.append(core.rel_eq(core.sub(x, y)))
        elif type(x) is Opaque and type(y) is Opaque:
            if x.op != y.op:
                cs.append(x is y)
            else:
                cs.append(args_equal(x.args, y.args))
        else:
            cs.append(type(x) is type(y) and x == y)
    return conj(cs)


def out_atom(p, i, hi=255):
    return of_atom(atom("uf", (p, i), 0, hi, p.fn if isinstance(p.fn, str) else p.fn[0]))


def axioms(m, facts, conds, seen):
    """violated congruence / inverse axioms under model m"""
    m = complete(m)
    apps = cone_apps(facts, conds)
    by = {}
    out = []
    for p, idxs in apps.values():
        by.setdefault(p.fn, []).append((p, idxs))
    vals = {}
    for fnname, lst in by.items():
        groups = {}
        for p, idxs in lst:
            v = vals[p.id] = argvals(p.args, m)
            groups.setdefault(v, []).append((p, idxs))
        for g in groups.values():
            p, pi = g[0]
            for q, qi in g[1:]:
                bad = [i for i in pi & qi if m.atom(uf_id(p, i)) != m.atom(uf_id(q, i))]
                if bad and (p.id, q.id) not in seen:
                    seen.add((p.id, q.id))
                    e = args_equal(p.args, q.args)
                    out.append(disj([neg(e), conj([core.rel_eq(core.sub(uf_form(p, i), uf_form(q, i))) for i in sorted(pi & qi)])]))
    # AES: encryption and decryption are inverse for one key
    for p, pi in by.get("aesenc", []):
        for q, qi in by.get("aesdec", []):
            if vals[p.id][0] != vals[q.id][0] or (p.id, q.id) in seen:
                continue
            pout = tuple(uf_form(p, i) for i in range(16))
            qout = tuple(uf_form(q, i) for i in range(16))
            pv, qv = tuple(m.form(x) for x in pout), tuple(m.form(x) for x in qout)
            if (pv == vals[q.id][1]) != (qv == vals[p.id][1]):
                seen.add((p.id, q.id))
                k = args_equal(p.args[0], q.args[0])
                e1, e2 = args_equal(pout, q.args[1]), args_equal(qout, p.args[1])
                out.append(disj([neg(k), neg(e1), e2]))
                out.append(disj([neg(k), e1, neg(e2)]))
    for name in ("aesenc", "aesdec"):
        lst = by.get(name, [])
        for n, (p, _) in enumerate(lst):
            for q, _ in lst[:n]:
                if vals[p.id][0] != vals[q.id][0] or ("inj", p.id, q.id) in seen:
                    continue
                pout = tuple(uf_form(p, i) for i in range(16))
                qout = tuple(uf_form(q, i) for i in range(16))
                if tuple(m.form(x) for x in pout) == tuple(m.form(x) for x in qout) and vals[p.id][1] != vals[q.id][1]:
                    seen.add(("inj", p.id, q.id))
                    out.append(disj([neg(args_equal(p.args[0], q.args[0])), neg(args_equal(pout, qout)), args_equal(p.args[1], q.args[1])]))
    return [c for c in out if c is not True]


def uf_id(p, i):
    return atom("uf", (p, i), 0, 255).id


def uf_form(p, i):
    return of_atom(atom("uf", (p, i), 0, 255))


# --------------------------------------------------------------- model to inputs
def value_of(kind, v, m):
    if kind.startswith("text"):
        return v if isinstance(v, str) else None
    if isinstance(v, (int, str, bytes)):
        return v
    if type(v) is SymInt:
        return m.form(v)
    e = [m.form(x) for x in v.e]
    return bytes(e) if isinstance(v, (SymBytes, SymByteArray)) else "".join(map(chr, e))


def input_values(m):
    return {n: (k, value_of(k, v, m)) for n, (k, v) in core.CTX.inputs.items()}


def env_values(m):
    out = []
    for s, n, b in core.CTX.envlog:
        out.append((s, n if isinstance(n, int) else list(n), value_of("bytes", b, m)))
    return out


def tables(m, conds=()):
    """tables of the hash, KDF and cipher applications under the model"""
    out = []
    for p, idxs in cone_apps(core.CTX.facts, conds).values():
        name = p.fn if isinstance(p.fn, str) else p.fn[0]
        if name not in stubs.REAL:
            continue
        o = {i: m.atom(uf_id(p, i)) for i in sorted(idxs)}
        out.append(dict(fn=p.fn if isinstance(p.fn, str) else list(p.fn), args=[serial(a, m, True) for a in p.args], out=o))
    return out


def serial(a, m, top=False):
    """argument of an application as data: bytes as hex text, opaque texts as expressions"""
    if type(a) is Opaque:
        return dict(op=a.op, args=[serial(x, m) for x in a.args])
    if type(a) is tuple:
        v = [m.form(x) if type(x) is SymInt else x for x in a]
        return bytes(v).hex() if top else dict(hex=bytes(v).hex())
    if isinstance(a, (SymBytes, SymByteArray, bytes, bytearray)):
        v = bytes(m.form(x) if type(x) is SymInt else x for x in SymBytes.codes_of(a))
        return v.hex() if top else dict(hex=v.hex())
    if isinstance(a, SymStr):
        return dict(str=[m.form(x) if type(x) is SymInt else x for x in a.e])
    if type(a) is SymInt:
        return m.form(a)
    return a


# ----------------------------------------------------------------- exploration
class Result:
    def __init__(self):
        self.paths = 0
        self.cut = 0
        self.stats = core.Stats()
        self.candidates = []
        self.incomplete = []
        self.labels = set()
        self.unsupported = []
        self.budget = []
        self.witnesses = []
        self.pending = []
        self.funcs = set()
        self.wall = 0.0
        self.asserted = 0


def stuck(e):
    return f"results can be used as documented ({type(e).__name__})"


def explore(fn, case, opts, prefixes=((),)):
    """run scenario fn on every path below the given prefixes; stops after opts['slice'] seconds
    and leaves the rest in Result.pending"""
    res = Result()
    t0 = time.time()
    stack = list(prefixes)
    deadline = opts.get("deadline")
    limits = dict(branches=opts.get("branches", 3000), query=opts.get("query", 20), deadline=deadline)
    while stack:
        if deadline and time.time() > deadline:
            res.budget.append(f"time limit with at least {len(stack)} unexplored prefixes")
            stack.clear()
            break
        if opts.get("slice") and time.time() > t0 + opts["slice"]:
            break
        if res.paths + res.cut and len(stack) > 1 and HUNGRY is not None and HUNGRY():
            break
        if len(res.candidates) >= opts.get("max_candidates", 4) or len(res.unsupported) > 20:
            break
        prefix = stack.pop(min(range(len(stack)), key=lambda i: len(stack[i])))    # shallow first: splits well
        core.reset()
        merged = ()
        if prefix and prefix[0][0] == "merged":
            merged, prefix = prefix[0], prefix[1:]
        c = Ctx(prefix, res.stats, dict(limits))
        core.set_ctx(c)
        s = None
        end = "path"
        try:
            lib = instrument.Library(REPO)
            s = S(lib, case, dict(opts, merged=merged[1]) if merged else opts)
            fn(s, **case)
            res.paths += 1
        except PathEnd:
            res.cut += 1
            end = "cut"
        except core.Identify as e:
            res.cut += 1
            end = "cut"
            m = merge(merged[1] if merged else (), e.pair)
            k = (fn.__module__, fn.__name__, repr(case), m)
            if k not in MERGED:
                MERGED.add(k)
                stack.append((("merged", m),))
        except Unsupported as e:
            res.unsupported.append(str(e))
            end = "unsupported"
            if os.environ.get("SX_TRACE"):
                traceback.print_exc()
        except Budget as e:
            res.budget.append(str(e))
            end = "budget"
        except RecursionError as e:
            res.unsupported.append("recursion limit of the encoder")
            end = "unsupported"
        except Exception as e:
            # the scenario could not use a result (another exception than expected, a missing field,
            # a value of another type): whether the real code does the same is seen in the replay
            if s is None:
                raise
            end = "stuck"
            trace = traceback.format_exc()
            try:
                s.candidate(True, stuck(e), note=trace[-1500:])
            except EngineStop:
                pass
            if os.environ.get("SX_TRACE"):
                print(trace)
        finally:
            stubs.restore()
        if s is not None:
            res.labels |= s.labels
            res.asserted += s.asserted
            res.candidates += s.candidates
            if end == "path" and opts.get("witness", 0) > len(res.witnesses):
                w = witness()
                if w is not None:
                    res.witnesses.append(w)
        for w in c.incomplete:
            if w not in res.incomplete:
                res.incomplete.append(w)
        tr = c.trace
        for i in range(len(prefix), len(tr)):
            d, alt, sg = tr[i]
            if alt:
                stack.append(((merged,) if merged else ()) + tuple(tr[:i]) + ((not d, False, sg),))
    res.pending = stack
    res.funcs = {os.path.relpath(c.co_filename, REPO) + ":" + c.co_qualname for c in instrument.FUNCS
                 if c.co_filename.startswith(REPO + os.sep)}
    instrument.FUNCS.clear()
    res.wall = time.time() - t0
    return res


MERGED = set()           # identifications this process has put on its work list


def merge(groups, pair):
    """groups of equal texts (('same' or 'canon', names), ...) with one more equality"""
    how, a, b = pair
    names = {a, b}
    out = []
    for h, g in groups:
        if names & set(g):
            names |= set(g)
            how = "canon" if "canon" in (how, h) else how
        else:
            out.append((h, g))
    return tuple(sorted(out + [(how, tuple(sorted(names)))]))


def witness():
    """inputs that follow the path just completed (functions free)"""
    try:
        r, m = check(core.CTX.facts, [], full=True, timeout=10)
    except EngineStop:
        return None
    if r != "sat":
        return None
    m = complete(m)
    return dict(inputs=input_values(m), env=env_values(m))
