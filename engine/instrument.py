"""Loads the modules of the code under analysis from source, rewritten so that
calls, subscripts, `in`, `%`/`*`/`+` and f-strings go through hooks that understand
symbolic values.  All other semantics are those of CPython."""
import ast
import builtins
import functools
import itertools
import operator
import os
import sys
import types

from . import core, values
from .core import (SymInt, SymBool, Unsupported, EngineStop, add, concretize, branch, fn, bounds, simp)
from .values import (SymBytes, SymByteArray, SymStr, SymSeq, Opaque, mk_bytes, mk_str, has_sym, is_sym, PROXIES)

HANDLERS = {}
MODEL_OK = set()          # callables that may receive proxies unchanged


# ------------------------------------------------------------------ transformer
class Rewriter(ast.NodeTransformer):
    SKIP = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}

    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def call(self, n, *args):
        return ast.Call(func=self.name(n), args=list(args), keywords=[])

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.SKIP:
            return node
        return ast.copy_location(ast.Call(func=self.name("_sx_call_"), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        s = node.slice
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            s = self.call("_sx_slice_", s.lower or none, s.upper or none, s.step or none)
        elif any(isinstance(x, ast.Slice) for x in ast.walk(s) if x is not s) and isinstance(s, ast.Tuple):
            return node
        return ast.copy_location(self.call("_sx_get_", node.value, s), node)

    OPS = {ast.Mod: "mod", ast.Mult: "mul", ast.Add: "add", ast.Sub: "sub"}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = self.OPS.get(type(node.op))
        if op is None:
            return node
        return ast.copy_location(self.call("_sx_bin_", ast.Constant(value=op), node.left, node.right), node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and isinstance(node.op, ast.Mod):
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.copy_location(ast.Assign(targets=[node.target], value=self.call(
                "_sx_bin_", ast.Constant(value="mod"), load, node.value)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            o = node.ops[0]
            n = {ast.In: "_sx_in_", ast.NotIn: "_sx_notin_", ast.Is: "_sx_is_", ast.IsNot: "_sx_isnot_"}.get(type(o))
            if n:
                return ast.copy_location(self.call(n, node.left, node.comparators[0]), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(self.call("_sx_fstr_", *parts), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            h = ast.ExceptHandler(type=self.name("_sx_stop_"), name=None, body=[ast.Raise(exc=None, cause=None)])
            node.handlers.insert(0, h)
        return node

    def visit_FunctionDef(self, node):
        self._args(node.args)
        node.body = [self.visit(s) for s in node.body]
        node.body = [x for s in node.body for x in (s if isinstance(s, list) else [s])]
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self._args(node.args)
        node.body = self.visit(node.body)
        return node

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ClassDef(self, node):
        node.body = [x for s in node.body for x in (lambda r: r if isinstance(r, list) else [r])(self.visit(s))]
        return node


# ------------------------------------------------------------------------ hooks
FUNCS = set()        # code objects of the analysed package that were executed symbolically


def real_type(x):
    t = type(x)
    if t is SymInt: return int
    if t is SymBool: return bool
    if t is SymBytes: return bytes
    if t is SymByteArray: return bytearray
    if t is SymStr: return str
    if t is Opaque: return str if x.kind == "str" else bytes
    return getattr(x, "_real_type", t)


def instrumented(f):
    g = getattr(f, "__globals__", None)
    return g is not None and "_sx_call_" in g


def wrap_callable(f):
    if f is None or isinstance(f, types.FunctionType) and instrumented(f):
        return f
    if callable(f):
        return lambda *a, **k: sx_call(f, *a, **k)
    return f


def sx_call(f, /, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        if "_sx_call_" in f.__globals__:
            FUNCS.add(f.__code__)
            return f(*a, **k)
        h = HANDLERS.get(f)
        if h is not None:
            return h(*a, **k)
    elif t is types.MethodType:
        g = getattr(f.__func__, "__globals__", None)
        if g is not None and "_sx_call_" in g:
            FUNCS.add(f.__func__.__code__)
        if g is not None and "_sx_call_" in g or isinstance(f.__self__, PROXIES) or getattr(f.__self__, "_is_model", False):
            return f(*a, **k)
        h = HANDLERS.get((f.__self__, f.__func__)) if isinstance(f.__self__, type) else None
        if h is None:
            h = HANDLERS.get(("method", f.__func__))
            if h is not None:
                return h(f.__self__, *a, **k)
        if h is not None:
            return h(*a, **k)
    elif t is type:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*a, **k)
        if f.__module__ in LOADED or issubclass(f, BaseException) or f in MODEL_OK:
            c = getattr(f.__init__, "__code__", None)
            if c is not None and f.__module__ in LOADED:
                FUNCS.add(c)
            return f(*a, **k)
    else:
        try:
            h = HANDLERS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*a, **k)
        if f in MODEL_OK if _hashable(f) else False:
            return f(*a, **k)
        if t is types.BuiltinFunctionType:
            s = f.__self__
            if s is None or isinstance(s, types.ModuleType):
                pass
            elif isinstance(s, type):
                h = TYPE_METHODS.get((s, f.__name__))
                if h is not None:
                    return h(*a, **k)
            else:
                if type(s) in (str, bytes, bytearray) and a and hasattr(a[0], "__next__"):
                    a = (list(a[0]),) + a[1:]
                if not any(has_sym(x) for x in a) and not (k and any(has_sym(x) for x in k.values())) \
                        and not (type(s) in (list, dict, tuple, set)):
                    r = f(*[nat(x) for x in a], **{n: nat(v) for n, v in k.items()})
                    return r
                return native_method(f, s, f.__name__, a, k)
        elif isinstance(f, functools.partial):
            return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
        elif isinstance(f, type):                # metaclass instances (Enum, ABC ...)
            if f.__module__ in LOADED or issubclass(f, BaseException):
                return f(*a, **k)
        elif hasattr(f, "__wrapped__") and t.__name__ == "_lru_cache_wrapper":
            return f(*a, **k)
        elif t in (types.MethodDescriptorType, types.WrapperDescriptorType) and a:
            return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
        else:
            c = getattr(type(f), "__call__", None)
            if c is not None and instrumented(c):
                return f(*a, **k)
            if getattr(f, "_is_model", False):
                return f(*a, **k)
    if not any(has_sym(x) for x in a) and not (k and any(has_sym(x) for x in k.values())):
        return f(*[nat(x) for x in a], **{n: nat(v) for n, v in k.items()})
    return unsupported_call(f, a, k)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def nat(x):
    """fully concrete proxies back to native objects"""
    if type(x) is SymByteArray and all(type(v) is not SymInt for v in x.e):
        return bytearray(x.e)
    return x


def fix(x):
    """solver-chosen native value for a proxy (loses coverage, recorded)"""
    if type(x) is SymInt or type(x) is SymBool:
        return fix_int(x)
    if isinstance(x, SymBytes):
        return bytes(fix_int(v) for v in x.e)
    if isinstance(x, SymByteArray):
        return bytearray(fix_int(v) for v in x.e)
    if isinstance(x, SymStr):
        return "".join(chr(fix_int(v)) for v in x.e)
    if isinstance(x, Opaque):
        raise Unsupported("opaque text used concretely")
    if isinstance(x, (list, tuple)) and has_sym(x):
        return type(x)(fix(v) for v in x)
    if isinstance(x, dict) and has_sym(x):
        return {fix(a): fix(b) for a, b in x.items()}
    if getattr(x, "_is_model", False):
        raise Unsupported("modelled object passed to native code")
    return x


def fix_int(x):
    x = simp(core.num(x)) if type(x) is not SymBool else int(bool(x))
    if type(x) is not SymInt:
        return x
    return concretize(x, 1)


def unsupported_call(f, a, k):
    name = getattr(f, "__qualname__", repr(f))
    core.CTX.note_incomplete(f"arguments of {name} fixed to solver-chosen values")
    if core.CTX.limits.get("strict"):
        raise Unsupported(f"call of {name} with symbolic arguments")
    return f(*[fix(nat(x)) for x in a], **{n: fix(nat(v)) for n, v in k.items()})


def sx_get(o, i):
    if type(o) in (SymBytes, SymStr, SymByteArray, Opaque):
        return o[i]
    if type(i) in (SymInt, SymBool):
        return index_native(o, core.num(i))
    if type(i) is slice:
        if any(type(v) in (SymInt, SymBool) for v in (i.start, i.stop, i.step)):
            i = values.fix_slice(i)
        return o[i]
    if isinstance(i, PROXIES) and isinstance(o, dict):
        return dict_lookup(o, i, KeyError)
    if isinstance(o, dict) and has_symkey(o):
        return dict_lookup(o, i, KeyError)
    return o[i]


def index_native(o, i):
    i = simp(i)
    if type(i) is not SymInt:
        return o[i]
    if isinstance(o, dict):
        return dict_lookup(o, i, KeyError)
    if isinstance(o, (str, bytes, list, tuple, range)):
        n = len(o)
        if not branch(core.conj([core.rel_le(core.sub(-n, i)), core.rel_le(core.sub(i, n - 1))])):
            raise IndexError(f"{type(o).__name__} index out of range")
        lo, hi = bounds(i)
        if lo < 0:
            if branch(core.rel_le(add(i, 1))):
                i = add(i, n)
            i = simp(i)
            if type(i) is not SymInt:
                return o[i]
            lo, hi = bounds(i)
        vals = [o[v] for v in range(lo, hi + 1)]
        if isinstance(o, str):
            return mk_str((fn(i, tuple(map(ord, vals)), lo),))
        if all(type(v) is int for v in vals):
            return fn(i, tuple(vals), lo)
        if all(type(v) is bytes and len(v) == 1 for v in vals):
            return mk_bytes((fn(i, tuple(v[0] for v in vals), lo),))
        if all(type(v) is str and len(v) == 1 for v in vals):
            return mk_str((fn(i, tuple(map(ord, vals)), lo),))
        if all(type(v) in (str, bytes) for v in vals) and len({(type(v), len(v)) for v in vals}) == 1:
            conv = (lambda v: list(map(ord, v))) if type(vals[0]) is str else list
            cols = zip(*map(conv, vals))
            out = [fn(i, tuple(c), lo) for c in cols]
            return mk_str(out) if type(vals[0]) is str else mk_bytes(out)
        return o[concretize(i)]
    return o[concretize(i)]


def has_symkey(d):
    return any(isinstance(x, PROXIES) or type(x) is tuple and has_sym(x) for x in d)


def dict_lookup(d, key, missing):
    """value for a possibly symbolic key; forks over the entries"""
    ents = list(d.items())[::-1]       # equal symbolic keys may be stored twice: the newest counts
    rt = real_type(key)
    if not has_symkey(d) and isinstance(key, (SymInt, SymStr)):
        # table lookup for small keys
        code = key if type(key) is SymInt else (key.e[0] if len(key.e) == 1 else None)
        if code is not None:
            m = {}
            for kk, v in ents:
                if type(key) is SymInt and isinstance(kk, int):
                    m[int(kk)] = v
                elif type(key) is SymStr and isinstance(kk, str) and len(kk) == 1:
                    m[ord(kk)] = v
            if m and all(type(v) is int for v in m.values()):
                if branch(values.in_set(code, frozenset(m))):
                    code = simp(code)
                    if type(code) is not SymInt:
                        return m[code]
                    dd = core.form_dom(code)
                    lo, hi = min(dd), max(dd)
                    any_v = next(iter(m.values()))
                    return fn(code, tuple(m.get(v, any_v) for v in range(lo, hi + 1)), lo)
                return miss(key, missing)
            if m and all(type(v) is str and len(v) == 1 or type(v) is bytes and len(v) == 1 for v in m.values()):
                if branch(values.in_set(code, frozenset(m))):
                    code = simp(code)
                    if type(code) is not SymInt:
                        return m[code]
                    dd = core.form_dom(code)
                    lo, hi = min(dd), max(dd)
                    any_v = next(iter(m.values()))
                    g = (lambda v: ord(v)) if type(any_v) is str else (lambda v: v[0])
                    c = fn(code, tuple(g(m.get(v, any_v)) for v in range(lo, hi + 1)), lo)
                    return mk_str((c,)) if type(any_v) is str else mk_bytes((c,))
                return miss(key, missing)
    for kk, v in ents:
        if kk is key:
            return v
        r = kk == key
        if r is True or type(r) is SymBool and branch(r.cond):
            return v
    return miss(key, missing)


def miss(key, missing):
    if missing is KeyError:
        raise KeyError("symbolic key")
    return missing


def sx_in(x, c):
    if type(c) in (SymBytes, SymStr, SymByteArray, Opaque):
        return x in c
    if isinstance(c, (str, bytes, bytearray)):
        if isinstance(x, PROXIES):
            if isinstance(c, str):
                if not isinstance(x, SymStr):
                    raise TypeError("'in <string>' requires string as left operand")
                xs = x.e
            else:
                xs = (x,) if type(x) is SymInt else SymBytes.codes_of(x)
            codes = tuple(map(ord, c)) if isinstance(c, str) else tuple(c)
            if len(xs) == 1:
                return branch(values.in_set(xs[0], frozenset(codes)))
            return branch(core.disj([values.seq_eq(codes[i:i + len(xs)], xs) for i in range(len(codes) - len(xs) + 1)]))
        return x in c
    if isinstance(c, range) and type(x) is SymInt:
        lo, hi, st = c.start, c.stop, c.step
        if st < 0:
            lo, hi, st = c[-1] if len(c) else 0, c[0] + 1 if len(c) else 0, -st
        if type(lo) is SymInt or len(c) == 0:
            return False
        ok = core.conj([core.rel_le(core.sub(lo, x)), core.rel_le(add(core.sub(x, hi), 1))])
        if st != 1:
            ok = core.conj([ok, core.rel_eq(core.mod(core.sub(x, lo), st))])
        return branch(ok)
    if isinstance(c, (list, tuple, set, frozenset, dict)) or isinstance(c, (type({}.keys()), type({}.values()))):
        if isinstance(x, PROXIES) or has_sym(list(c)):
            if type(x) is SymInt and all(type(v) is int for v in c):
                return branch(values.in_set(x, frozenset(c)))
            for y in list(c):
                if y is x:
                    return True
                r = y == x
                if r is True or type(r) is SymBool and branch(r.cond):
                    return True
            return False
    return x in c


def sx_notin(x, c):
    return not sx_in(x, c)


def sx_is(a, b):
    if type(a) is SymBool and isinstance(b, bool):
        return branch(core.cond_of(a == b))
    if type(b) is SymBool and isinstance(a, bool):
        return branch(core.cond_of(b == a))
    if isinstance(a, PROXIES) or isinstance(b, PROXIES):
        return a is b
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    return a is b


def sx_isnot(a, b):
    return not sx_is(a, b)


NATIVE_BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "mod": operator.mod}
SIMPLE = (int, str, bytes, float, bool, list, tuple)


def sx_bin(op, a, b):
    ta, tb = type(a), type(b)
    if op == "mod" and ta in (str, bytes) and (isinstance(b, PROXIES) or has_sym(b)):
        return percent(a, b)
    if op in ("mul", "add", "sub") and (ta not in SIMPLE or tb not in SIMPLE):
        h = BINHOOK(op, a, b) if BINHOOK else None
        if h is not None:
            return h
    return NATIVE_BIN[op](a, b)


BINHOOK = None


def fmt_value(v, conv, spec):
    """format one value -> codes tuple or Opaque or None (placeholder)"""
    if conv in (ord("r"), ord("a")):
        if is_sym(v):
            return None
        return tuple(map(ord, format(repr(v), spec)))
    if type(v) is SymBool:
        v = bool(v)
    if type(v) is SymInt:
        return fmt_int(v, spec)
    if type(v) is SymStr:
        if spec in ("", "s"):
            return v.e
        return None
    if type(v) is Opaque:
        return v if spec in ("", "s") else None
    if is_sym(v) or has_sym(v):
        return None
    return tuple(map(ord, format(str(v) if conv == ord("s") else v, spec)))


def fmt_int(v, spec):
    import re
    m = re.fullmatch(r"(0?)(\d*)([dxXbo]?)", spec)
    if not m:
        raise Unsupported("integer format " + spec)
    zero, width, ty = m.groups()
    base, tab = {"": (10, values.HEX), "d": (10, values.HEX), "x": (16, values.HEX), "X": (16, values.HEXU),
                 "b": (2, values.HEX), "o": (8, values.HEX)}[ty]
    return radix_fixed(v, base, tab, int(width or 0), 48 if zero else 32)


def radix_fixed(v, base, tab, width, pad):
    lo, hi = bounds(v)
    if pad == 48 and lo >= 0 and hi < base ** width:
        out = []
        for _ in range(width):
            out.append(values.digit_code(core.mod(v, base), tab))
            v = core.floordiv(v, base)
        return tuple(out[::-1])
    return values.to_radix(v, base, tab, width, pad)


def sx_fstr(*parts):
    sym = False
    for p in parts:
        if type(p) is tuple and (is_sym(p[0]) or has_sym(p[0])):
            sym = True
    if not sym:
        out = []
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == 114: v = repr(v)
                elif conv == 115: v = str(v)
                elif conv == 97: v = ascii(v)
                out.append(format(v, spec))
            else:
                out.append(p)
        return "".join(out)
    codes = []
    for p in parts:
        if type(p) is not tuple:
            codes.append(tuple(map(ord, p)))
            continue
        codes.append(fmt_value(*p))
    return join_pieces(codes)


def join_pieces(codes):
    if any(c is None for c in codes):
        return "<text with symbolic parts>"
    if any(isinstance(c, Opaque) for c in codes):
        r = None
        for c in codes:
            v = c if isinstance(c, Opaque) else mk_str(c)
            if v == "" if type(v) is str else False:
                continue
            r = v if r is None else r + v
        return r
    return mk_str([x for c in codes for x in c])


def percent(t, b):
    import re
    args = list(b) if type(b) is tuple else [b]
    text = t if isinstance(t, str) else t.decode("latin-1")
    out, pos = [], 0
    for m in re.finditer(r"%(%|([0]?)(\d*)([sdxXrb]))", text):
        out.append(tuple(map(ord, text[pos:m.start()])))
        pos = m.end()
        if m.group(1) == "%":
            out.append((37,))
            continue
        v = args.pop(0)
        ty = m.group(4)
        if ty in "sb" and isinstance(t, bytes):
            out.append(SymBytes.codes_of(v))
        elif ty in "dxX":
            out.append(fmt_value(v, -1, m.group(2) + m.group(3) + ty))
        else:
            out.append(fmt_value(v, ord("r") if ty == "r" else -1, ""))
    out.append(tuple(map(ord, text[pos:])))
    if isinstance(t, bytes):
        return mk_bytes([x for c in out for x in c])
    return join_pieces(out)


def str_format(s, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(tuple(map(ord, lit)))
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported("format field " + field)
        out.append(fmt_value(v, ord(conv) if conv else -1, spec or ""))
    return join_pieces(out)


# ---------------------------------------------------------------- native methods
def native_method(f, s, name, a, k):
    """method of a native object called with symbolic arguments (or a container)"""
    t = type(s)
    if t in (str, bytes):
        lift = SymStr(tuple(map(ord, s))) if t is str else SymBytes(tuple(s))
        if name == "format" and t is str:
            return str_format(s, a, k)
        if name in ("find", "index") and len(a) == 1:
            x = a[0]
            code = None
            if type(x) is SymInt and t is bytes:
                code = x
            elif isinstance(x, SymSeq) and len(x.e) == 1:
                code = x.e[0]
            if code is not None:
                return find_code(s, code, name)
        if name == "join":
            return lift.join(a[0])
        if hasattr(lift, name):
            return getattr(lift, name)(*a, **k)
        return unsupported_call(f, a, k)
    if t is list:
        if name in ("index", "count", "remove"):
            if name == "index":
                x = a[0]
                if type(x) is SymInt and all(type(v) is int for v in s):
                    r = find_list(s, x)
                    if r is not None:
                        return r
                for i, y in enumerate(s):
                    if y is x or sx_true(y == x):
                        return i
                raise ValueError("value is not in list")
            if name == "count":
                return sum(1 for y in s if y is a[0] or sx_true(y == a[0]))
            for i, y in enumerate(s):
                if y is a[0] or sx_true(y == a[0]):
                    del s[i]
                    return None
            raise ValueError("list.remove(x): x not in list")
        if name == "sort" and k.get("key") is not None:
            k["key"] = wrap_callable(k["key"])
        return f(*[values.idx(x) if name in ("insert", "pop") and n == 0 else x for n, x in enumerate(a)], **k)
    if t is dict or t.__name__ in ("OrderedDict", "defaultdict"):
        key = a[0] if a else None
        if a and name in ("get", "pop", "setdefault") and (isinstance(key, PROXIES) or has_sym(key) or has_symkey(s)):
            if name == "get":
                return dict_lookup(s, key, a[1] if len(a) > 1 else k.get("default"))
            sentinel = object()
            r = dict_lookup(s, key, sentinel)
            if r is sentinel:
                if name == "setdefault":
                    s[key] = a[1] if len(a) > 1 else None
                    return s[key]
                if len(a) > 1:
                    return a[1]
                raise KeyError("symbolic key")
            if name == "pop":
                raise Unsupported("dict.pop with symbolic key")
            return r
        return f(*a, **k)
    if t in (tuple, set, frozenset) or isinstance(s, (types.GeneratorType,)):
        return f(*a, **k)
    if t is int and name == "to_bytes":
        return int(s).to_bytes(*[values.idx(x) for x in a], **{n: values.idx(v) for n, v in k.items()})
    return unsupported_call(f, a, k)


def sx_true(r):
    return r is True or type(r) is SymBool and branch(r.cond)


def find_code(s, code, name):
    m = {}
    for i, c in enumerate(s):
        m.setdefault(ord(c) if isinstance(c, str) else c, i)
    code = simp(code)
    if type(code) is not SymInt:
        r = m.get(code, -1)
        if r < 0 and name == "index":
            raise ValueError("substring not found")
        return r
    d = core.form_dom(code)
    if name == "index" or d is None:
        if not branch(values.in_set(code, frozenset(m))):
            if name == "index":
                raise ValueError("substring not found")
            return -1
        code = simp(code)
        if type(code) is not SymInt:
            return m[code]
        d = core.form_dom(code)
    lo, hi = min(d), max(d)
    dflt = -1 if name == "find" else 0
    return fn(code, tuple(m.get(v, dflt) for v in range(lo, hi + 1)), lo)


def find_list(s, x):
    m = {}
    for i, c in enumerate(s):
        m.setdefault(c, i)
    if not branch(values.in_set(x, frozenset(m))):
        raise ValueError("value is not in list")
    x = simp(x)
    if type(x) is not SymInt:
        return m[x]
    d = core.form_dom(x)
    if d is None:
        return None
    lo, hi = min(d), max(d)
    return fn(x, tuple(m.get(v, 0) for v in range(lo, hi + 1)), lo)


# ---------------------------------------------------------------------- builtins
def handler(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h
    return deco


@handler(len)
def h_len(x):
    if type(x) is Opaque:
        return x.length()
    return len(x)


@handler(isinstance)
def h_isinstance(x, t):
    if isinstance(x, PROXIES) or getattr(x, "_is_model", False):
        ts = t if type(t) is tuple else (t,)
        flat = []
        for y in ts:
            flat.extend(y if type(y) is tuple else getattr(y, "__args__", (y,)) if not isinstance(y, type) else (y,))
        rt = real_type(x)
        for y in flat:
            try:
                if issubclass(rt, y):
                    return True
            except TypeError:
                pass
        return False
    if type(x) is SymByteArray:
        return issubclass(bytearray, t)
    return isinstance(x, t)


@handler(type)
def h_type(*a, **k):
    if len(a) == 1:
        return real_type(a[0])
    return type(*a, **k)


@handler(int)
def h_int(x=0, base=None):
    if type(x) is SymInt and base is None:
        return x
    if type(x) is SymBool:
        return core.num(x)
    if isinstance(x, (SymStr, SymBytes, SymByteArray)):
        return values.parse_radix(x.e, 10 if base is None else values.idx(base))
    if type(x) is Opaque:
        raise Unsupported("int() of opaque text")
    return int(x) if base is None else int(x, base)


def h_bool(x=False):
    return bool(x)


HANDLERS[bool] = h_bool


@handler(float)
def h_float(x=0.0):
    return float(x)


@handler(str)
def h_str(x="", *a, **k):
    if isinstance(x, (SymBytes, SymByteArray)) and (a or k):
        return values.decode_text(x.e, *(a or (k.get("encoding", "utf-8"),)), "strict") if len(a) < 2 else Unsupported
    if type(x) is SymStr or type(x) is Opaque and x.kind == "str" and not a:
        return x
    if type(x) is Opaque:
        return x.decode(*a, **k)
    if type(x) is SymInt:
        return mk_str(values.to_radix(x, 10, values.HEX))
    if type(x) is SymBool:
        return str(bool(x))
    if is_sym(x):
        return "<symbolic>"
    return str(x, *a, **k)


@handler(repr)
def h_repr(x):
    if type(x) is SymInt:
        return h_str(x)
    if is_sym(x):
        return "<symbolic>"
    return repr(x)


def seq_to_codes(x):
    out = []
    for v in x:
        if type(v) is SymBool:
            v = int(bool(v))
        if type(v) is not SymInt:
            v = operator.index(v)
        out.append(SymByteArray.chk(None, v) if not (type(v) is int and 0 <= v < 256) else v)
    return out


def check_int_code(v):
    if type(v) is int and not 0 <= v < 256:
        raise ValueError("bytes must be in range(0, 256)")
    return v


@handler(bytes)
def h_bytes(*a, **k):
    if not a:
        return bytes(**k)
    x = a[0]
    if isinstance(x, (SymStr, str)) and type(x) is SymStr:
        enc = a[1] if len(a) > 1 else k.get("encoding")
        if enc is None:
            raise TypeError("string argument without an encoding")
        err = a[2] if len(a) > 2 else k.get("errors", "strict")
        return values.encode_text(x.e, enc, err)
    if type(x) is Opaque:
        if x.kind == "str":
            enc = a[1] if len(a) > 1 else k.get("encoding")
            if enc is None:
                raise TypeError("string argument without an encoding")
            return x.encode(enc)
        return x
    if isinstance(x, (SymBytes, SymByteArray)):
        return mk_bytes(x.e)
    if type(x) in (SymInt, SymBool):
        return bytes(concretize(x))
    if isinstance(x, (str, bytes, bytearray, memoryview, int)):
        return bytes(*a, **k)
    if hasattr(x, "__bytes__") and not isinstance(x, (list, tuple)):
        return bytes(x)
    return mk_bytes([check_int_code(v) for v in seq_to_codes(x)])


@handler(bytearray)
def h_bytearray(*a, **k):
    if not a:
        return SymByteArray()
    b = h_bytes(*a, **k)
    return SymByteArray(SymBytes.codes_of(b))


@handler(memoryview)
def h_memoryview(x):
    return x if is_sym(x) else memoryview(x)


@handler(ord)
def h_ord(x):
    if isinstance(x, (SymStr, SymBytes, SymByteArray)):
        if len(x.e) != 1:
            raise TypeError("ord() expected a character")
        return x.e[0]
    return ord(x)


@handler(chr)
def h_chr(x):
    if type(x) is SymInt:
        if not branch(core.conj([core.rel_le(core.scale(x, -1)), core.rel_le(core.sub(x, 0x10ffff))])):
            raise ValueError("chr() arg not in range(0x110000)")
        return mk_str((x,))
    return chr(x)


@handler(hex)
def h_hex(x):
    if type(x) is SymInt:
        c = values.to_radix(x, 16, values.HEX)
        return mk_str((45, 48, 120) + c[1:] if c[0] == 45 else (48, 120) + c)
    return hex(x)


@handler(bin)
def h_bin(x):
    if type(x) is SymInt:
        return mk_str((48, 98) + values.to_radix(x, 2, values.HEX))
    return bin(x)


@handler(format)
def h_format(v, spec=""):
    if is_sym(v):
        return join_pieces([fmt_value(v, -1, spec)])
    return format(v, spec)


@handler(divmod)
def h_divmod(a, b):
    if type(a) is SymInt or type(b) is SymInt:
        return core.floordiv(a, b), core.mod(a, b)
    return divmod(a, b)


@handler(pow)
def h_pow(a, b, m=None):
    if m is not None and (type(a) is SymInt or type(b) is SymInt):
        return SymInt.__pow__(a, b, m) if type(a) is SymInt else pow(a, concretize(b), m)
    return a ** b if m is None else pow(a, b, m)


@handler(hash)
def h_hash(x):
    if is_sym(x):
        raise Unsupported("hash of a symbolic value")
    return hash(x)


@handler(map)
def h_map(f, *its):
    return map(wrap_callable(f), *its)


@handler(filter)
def h_filter(f, it):
    return filter(wrap_callable(f), it)


@handler(sorted)
def h_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrap_callable(key), reverse=reverse)


def _minmax(native):
    def h(*a, **k):
        if k.get("key") is not None:
            k["key"] = wrap_callable(k["key"])
        return native(*a, **k)
    return h


HANDLERS[min] = _minmax(min)
HANDLERS[max] = _minmax(max)


@handler(functools.reduce)
def h_reduce(f, it, *a):
    return functools.reduce(wrap_callable(f), it, *a)


@handler(range)
def h_range(*a):
    return range(*[values.idx(x) for x in a])


@handler(print)
def h_print(*a, **k):
    return None


@handler(issubclass)
def h_issubclass(*a):
    return issubclass(*a)


@handler(getattr)
def h_getattr(o, n, *d):
    return getattr(o, n if isinstance(n, str) else fix(n), *d)


for _f in (enumerate, zip, iter, next, list, tuple, set, frozenset, dict, reversed, sum, any, all, slice, id, callable,
           hasattr, setattr, abs, round, property, staticmethod, classmethod, object, itertools.chain, itertools.repeat,
           itertools.islice, itertools.zip_longest, itertools.count, itertools.accumulate, itertools.chain.from_iterable,
           itertools.cycle, itertools.tee, operator.xor, operator.add, operator.eq, operator.getitem, operator.mul,
           operator.and_, operator.or_, operator.ne, operator.sub, operator.index, functools.partial, functools.wraps,
           itertools.takewhile, itertools.dropwhile):
    MODEL_OK.add(_f)


def _pred_first(native):
    def h(f, *a):
        return native(wrap_callable(f), *a)
    return h


HANDLERS[itertools.takewhile] = _pred_first(itertools.takewhile)
HANDLERS[itertools.dropwhile] = _pred_first(itertools.dropwhile)
HANDLERS[itertools.starmap] = _pred_first(itertools.starmap)


def h_accumulate(it, func=None, *, initial=None):
    return itertools.accumulate(it, wrap_callable(func), initial=initial) if func else itertools.accumulate(it, initial=initial)


HANDLERS[itertools.accumulate] = h_accumulate


def tm_fromhex(s):
    return values.fromhex(s) if not isinstance(s, str) else bytes.fromhex(s)


def tm_ba_fromhex(s):
    return SymByteArray(SymBytes.codes_of(tm_fromhex(s)))


def tm_from_bytes(b, byteorder="big", *, signed=False):
    if has_sym(b) or type(b) is SymByteArray or not isinstance(b, (bytes, bytearray, list, tuple)):
        return values.int_from_bytes(b, byteorder, signed)
    return int.from_bytes(b, byteorder, signed=bool(signed))


TYPE_METHODS = {
    (bytes, "fromhex"): tm_fromhex,
    (bytearray, "fromhex"): tm_ba_fromhex,
    (int, "from_bytes"): tm_from_bytes,
    (dict, "fromkeys"): dict.fromkeys,
}


# ------------------------------------------------------------------------ loader
LOADED = {}


class Library:
    """One fresh instance of the package under analysis, executed from rewritten source."""
    _code = {}

    def __init__(self, root, package="bip38"):
        self.root, self.package = root, package
        self.mods = {}
        for k in [k for k in sys.modules if k == package or k.startswith(package + ".")]:
            del sys.modules[k]
        sys.meta_path.insert(0, self)
        try:
            import importlib
            importlib.invalidate_caches() if False else None
            self.top = importlib.import_module(package)
            for m in ("bip38", "wif", "crypto", "utils", "p2pkh_address", "cryptocurrencies", "const", "exceptions",
                      "secp256k1", "libs.base58", "libs.ripemd160"):
                setattr(self, m.split(".")[-1] if m != "bip38" else "core", importlib.import_module(f"{package}.{m}"))
        finally:
            sys.meta_path.remove(self)

    def find_spec(self, name, path, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        import importlib.util
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return importlib.util.spec_from_loader(name, _Loader(os.path.join(p, "__init__.py"), self), is_package=True)
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_loader(name, _Loader(p + ".py", self), is_package=False)
        return None


class _Loader:
    def __init__(self, path, lib):
        self.path, self.lib = path, lib

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = Library._code.get(self.path)
        if code is None:
            code = Library._code[self.path] = compile_file(self.path)
        if module.__spec__.submodule_search_locations is not None:
            module.__path__ = [os.path.dirname(self.path)]
        module.__file__ = self.path
        inject(module.__dict__)
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)


def inject(g):
    g["_sx_call_"] = sx_call
    g["_sx_get_"] = sx_get
    g["_sx_slice_"] = slice
    g["_sx_bin_"] = sx_bin
    g["_sx_in_"] = sx_in
    g["_sx_notin_"] = sx_notin
    g["_sx_is_"] = sx_is
    g["_sx_isnot_"] = sx_isnot
    g["_sx_fstr_"] = sx_fstr
    g["_sx_stop_"] = EngineStop


def compile_file(path):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src, path)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)
