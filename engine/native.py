"""Native backend of the scenarios: runs the same scenario source on the unmodified package
(plain interpreter, no instrumentation).  Used to replay counterexamples and to validate the
encoding on concrete inputs.

modes   real     primitives untouched
        fast     scrypt replaced by a fast pseudo-random function (only to search for inputs)
        table    hash, KDF and cipher outputs as chosen by the solver, the rest untouched
usage   python -m engine.native JOB.json      (one JSON result on stdout)
"""
import hashlib
import json
import os
import random
import sys
import time
import unicodedata

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TEXTS = ["TestingOneTwoThree", "\u03d2\u0301\u0000\U00010400\U0001f4a9", "caf\u00e9 \u212b\u00c5", "e\u0301A\u030a", "",
         "  lead and trail \t", "MiXeD Case", "\ufb01\u2460\u00b2", "\u0130\u00df\u017f", "a" * 300, "\x00", "x\x00y",
         "line\r\nbreak\n", "\u2126\u1e69\u0323", "\u1112\u1161\u11ab", "0123456789abcdef", "\ufeffbom", "\u00a0nbsp\u3000",
         "p" * 64 + "q", "\u0344\u0958\u2adc", "'\"\\", "\U0001d15e", "0x00", "\u200d\u200b"]


# ------------------------------------------------------------------ primitive hooks
class Prims:
    mode = "real"
    table = {}
    rng = random.Random(0)
    env = None
    envlog = []
    salt = b""
    hidden = None


def tkey(fn, args):
    return (fn if isinstance(fn, str) else tuple(fn), tuple(bytes(a) for a in args))


def lookup(fn, args, real):
    if Prims.mode == "table":
        o = Prims.table.get(tkey(fn, args))
        if o is not None:
            return o(real)
    return real()


class Hash:
    def __init__(self, name, real, data=b""):
        self._name, self._h, self._buf = name, real(), b""
        self.name, self.digest_size, self.block_size = self._h.name, self._h.digest_size, self._h.block_size
        self.update(data)

    def update(self, d):
        self._h.update(d)
        self._buf += bytes(d)

    def digest(self):
        return lookup(self._name, (self._buf,), self._h.digest)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        h = Hash.__new__(Hash)
        h.__dict__.update(self.__dict__)
        h._h = self._h.copy()
        return h


def install():
    import scrypt
    import pyaes
    for n in ("sha256", "sha512", "sha1", "md5"):
        real = getattr(hashlib, n)
        setattr(hashlib, n, (lambda n, real: lambda data=b"", **k: Hash(n, real, data))(n, real))
    real_new = hashlib.new

    def new(name, data=b"", **k):
        n = name.lower().replace("-", "")
        n = {"rmd160": "ripemd160"}.get(n, n)
        if n == "ripemd160" and Prims.hidden is not None:
            raise ValueError("unsupported hash type " + name)
        return Hash(n, lambda: real_new(name), data)
    hashlib.new = new
    real_scrypt = scrypt.hash

    def shash(password, salt, N=1 << 14, r=8, p=1, buflen=64):
        pw = password.encode("utf-8") if isinstance(password, str) else bytes(password)
        sa = salt.encode("utf-8") if isinstance(salt, str) else bytes(salt)
        if Prims.mode in ("fast", "table"):
            def prf():
                out, i = b"", 0
                while len(out) < buflen:
                    h = hashlib.blake2b(repr((pw, sa, N, r, p, i)).encode() + Prims.salt)
                    out += h.digest()
                    i += 1
                return out[:buflen]
        else:
            def prf():
                return real_scrypt(password, salt, N, r, p, buflen)
        out = lookup(("scrypt", N, r, p), (pw, sa), prf)
        return (out + bytes(buflen))[:buflen]
    scrypt.hash = shash
    real_cls = pyaes.AESModeOfOperationECB

    class ECB(real_cls):
        def __init__(self, key):
            self._k = bytes(key)
            real_cls.__init__(self, key)

        def encrypt(self, b):
            return lookup("aesenc", (self._k, bytes(b)), lambda: real_cls.encrypt(self, b)) if len(b) == 16 else real_cls.encrypt(self, b)

        def decrypt(self, b):
            return lookup("aesdec", (self._k, bytes(b)), lambda: real_cls.decrypt(self, b)) if len(b) == 16 else real_cls.decrypt(self, b)
    ECB.__name__ = real_cls.__name__
    pyaes.AESModeOfOperationECB = ECB
    real_urandom = os.urandom

    def urandom(n):
        i = len(Prims.envlog)
        b = None
        if Prims.env and i < len(Prims.env) and Prims.env[i][0] == "os.urandom" and Prims.env[i][1] == n:
            b = bytes.fromhex(Prims.env[i][2])
        if b is None:
            b = Prims.rng.randbytes(n)
        Prims.envlog.append(("os.urandom", n, b))
        return b
    os.urandom = urandom
    import secrets
    secrets.token_bytes = lambda n=32: urandom(32 if n is None else n)
    secrets.token_hex = lambda n=32: urandom(32 if n is None else n).hex()
    secrets.randbits = lambda k: int.from_bytes(urandom((k + 7) // 8), "big") >> (-k % 8)


def partial(out):
    """completes a solver-chosen output with the real function's bytes"""
    def f(real):
        if not out:
            return real()
        r = bytearray(real())
        m = max(out) + 1
        if m > len(r):
            r += bytes(m - len(r))
        for i, v in out.items():
            r[i] = v
        return bytes(r)
    return f


def opaque_eval(e, texts):
    """value of a serialised opaque expression for concrete passphrases"""
    if isinstance(e, dict):
        if "hex" in e:
            return bytes.fromhex(e["hex"])
        if "str" in e:
            return "".join(map(chr, e["str"]))
        if "tuple" in e:
            return tuple(opaque_eval(x, texts) for x in e["tuple"])
        op, a = e["op"], [opaque_eval(x, texts) for x in e["args"]]
        if op == "in":
            return texts[a[0]]
        if op == "canon":
            return texts[f"{a[0]}.{a[1]}"]
        if op == "class":
            return texts[f"{a[0]}.0"]
        if op == "normalize":
            return unicodedata.normalize(a[1], a[0])
        if op.startswith("encode:"):
            _, enc, err = op.split(":")
            return a[0].encode(enc, err)
        if op.startswith("decode:"):
            _, enc, err = op.split(":")
            return a[0].decode(enc, err)
        if op == "concat":
            return a[0] + a[1]
        if op == "repeat":
            return a[0] * a[1]
        if op == "slice":
            return a[0][slice(*a[1:])]
        return getattr(a[0], op)(*a[1:])
    return e


class Table:
    """installed lazily: opaque arguments need the texts of the run"""
    def __init__(self, entries):
        self.entries = entries

    def install(self, texts):
        t = {}
        aes = []
        for e in self.entries:
            try:
                args = [opaque_eval(a, texts) if isinstance(a, dict) else bytes.fromhex(a) for a in e["args"]]
                args = [a.encode("utf-8") if isinstance(a, str) else a for a in args]
            except Exception:
                continue
            o = {int(k): v for k, v in e["out"].items()}
            fn = e["fn"] if isinstance(e["fn"], str) else tuple(e["fn"])
            t.setdefault(tkey(fn, args), partial(o))
            if fn in ("aesenc", "aesdec") and len(o) == 16:
                inv = "aesdec" if fn == "aesenc" else "aesenc"
                aes.append((inv, args[0], bytes(o[i] for i in range(16)), args[1]))
        for inv, k, x, y in aes:
            t.setdefault(tkey(inv, (k, x)), partial(dict(enumerate(y))))
        Prims.table = t


# -------------------------------------------------------------------------- backend
class Discard(BaseException):
    pass


class Violated(BaseException):
    def __init__(self, label):
        self.label = label


class Outcome:
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def kind(self):
        return None if self.exc is None else type(self.exc).__name__

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        return f"value {self.value!r}" if self.ok else f"{type(self.exc).__name__}: {self.exc}"


class NativeLibrary:
    def __init__(self):
        import importlib
        for k in [k for k in sys.modules if k == "bip38" or k.startswith("bip38.")]:
            del sys.modules[k]
        self.top = importlib.import_module("bip38")
        for m in ("bip38", "wif", "crypto", "utils", "p2pkh_address", "cryptocurrencies", "const", "exceptions",
                  "secp256k1", "libs.base58", "libs.ripemd160"):
            setattr(self, m.split(".")[-1] if m != "bip38" else "core", importlib.import_module("bip38." + m))


class S:
    native = True

    def __init__(self, lib, case, inputs, rng, text_index=None, table=None):
        self.lib, self.case, self.given, self.rng = lib, case, inputs or {}, rng
        self.text_index, self.table = text_index, table
        self.used, self.texts, self.labels, self.log = {}, {}, set(), []

    def _use(self, name, kind, v):
        self.used[name] = [kind, v.hex() if isinstance(v, bytes) else [ord(c) for c in v] if isinstance(v, str) else v]
        return v

    def bytes(self, name, n):
        g = self.given.get(name)
        if g is not None:
            v = bytes.fromhex(g[1])
        else:
            v = bytearray(self.rng.randbytes(n))
            k = self.rng.random()
            if n and k < 0.15:
                v[0] = self.rng.choice((0, 0, 255))
            elif n and k < 0.25:
                m = self.rng.randrange(n)
                v[:m] = bytes(m)
            elif n and k < 0.3:
                v[self.rng.randrange(n)] = 0
            v = bytes(v)
        return self._use(name, "bytes", v)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        g = self.given.get(name)
        if g is not None:
            v = g[1]
        else:
            k = self.rng.random()
            v = lo if k < 0.1 else hi if k < 0.2 else self.rng.randint(lo, min(hi, lo + 255)) if k < 0.3 else self.rng.randint(lo, hi)
        return self._use(name, "int", v)

    def chars(self, name, n, lo=0, hi=0x10ffff):
        g = self.given.get(name)
        v = "".join(map(chr, g[1])) if g is not None else "".join(chr(self.rng.randint(lo, hi)) for _ in range(n))
        return self._use(name, "str", v)

    def pick(self, name, alphabet, n):
        g = self.given.get(name)
        v = "".join(map(chr, g[1])) if g is not None else "".join(self.rng.choice(alphabet) for _ in range(n))
        return self._use(name, "str", v)

    def _text(self, name):
        g = self.given.get(name)
        if g is not None and g[1] is not None:
            v = g[1] if isinstance(g[1], str) else "".join(map(chr, g[1]))
        elif self.text_index is not None:
            v = TEXTS[(self.text_index + len(self.texts)) % len(TEXTS)]
        else:
            v = self.rng.choice(TEXTS)
        return v

    def text(self, name):
        v = self._text(name)
        how = (self.given.get(name) or ["text"])[0].split(" ")
        if how[0] == "text" and len(how) > 1:    # equal to another text, or canonically equivalent
            first = how[2]
            if first != name:
                v = self.texts[first]
                if how[1] == "canon":
                    v = next((w for w in (unicodedata.normalize(f, v) for f in ("NFC", "NFD")) if w != v), v)
            self.texts[name] = v
            if how[1] == "canon":
                self.texts[f"{first}.{how[3]}"] = v
            self._table()
            return self._use(name, self.given[name][0], v)
        while v in self.texts.values():          # different names: different texts unless given
            if self.given.get(name) and self.given[name][1] is not None:
                break
            v = v + "x"
        self.texts[name] = v
        self._table()
        return self._use(name, "text", v)

    def equivalent_texts(self, name, k=2):
        t = self._text(name + ".0")
        fs = ["NFC", "NFD", None]
        out = []
        for i in range(k):
            g = self.given.get(f"{name}.{i}")
            v = unicodedata.normalize(fs[i], t) if fs[i] else t
            if g is not None and g[1] is not None:
                v = g[1] if isinstance(g[1], str) else "".join(map(chr, g[1]))
            self.texts[f"{name}.{i}"] = v
            out.append(self._use(f"{name}.{i}", "text", v))
        self._table()
        return out

    def _table(self):
        if self.table is not None:
            self.table.install(self.texts)

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        g = self.given.get(name)
        i = g[1] if g is not None else self.rng.randrange(len(options))
        self._use(name, "int", i)
        return options[i]

    def assume(self, c):
        if not c:
            raise Discard()

    def reach(self, label):
        self.labels.add(label)

    def call(self, f, /, *a, **k):
        try:
            r = Outcome(True, f(*a, **k))
        except Exception as e:
            r = Outcome(False, exc=e)
        if len(self.log) < 40:
            self.log.append(f"{getattr(f, '__qualname__', f)}({', '.join([short(x) for x in a] + [f'{n}={short(x)}' for n, x in k.items()])}) -> {short(r)}")
        return r

    def same(self, a, b): return same(a, b)
    def all(self, *cs): return all(bool(c) for c in cs)
    def any(self, *cs): return any(bool(c) for c in cs)
    def no(self, c): return not c

    def check(self, cond, label, **info):
        if not cond:
            raise Violated(label)

    def fail(self, label):
        raise Violated(label)

    def env(self):
        return list(Prims.envlog)

    def words(self):
        pass

    def no_ripemd(self):
        if Prims.hidden is None:
            Prims.hidden = hashlib.algorithms_available
            hashlib.algorithms_available = {x for x in Prims.hidden if x.lower() not in ("ripemd160", "rmd160")}

    def fresh(self):
        return NativeLibrary()


def short(x):
    r = repr(x)
    return r if len(r) < 220 else r[:200] + "..."


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    ta, tb = type(a), type(b)
    n = {bytearray: bytes, bool: int}
    ta, tb = n.get(ta, ta), n.get(tb, tb)
    if ta is not tb:
        return False
    return bool(a == b)


# ------------------------------------------------------------------------------ runs
def one(sc, case, inputs=None, env=None, mode="real", seed=0, text_index=None, table=None):
    """-> dict(status='ok'|'discard'|'violated'|'error', ...)"""
    rng = random.Random(seed)
    Prims.mode, Prims.env, Prims.envlog, Prims.rng, Prims.table = mode, env, [], random.Random(rng.random()), {}
    Prims.salt = repr(seed).encode()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    tb = Table(table) if table is not None else None
    if tb is not None:
        tb.install({})
    s = None
    try:
        s = S(NativeLibrary(), case, inputs, rng, text_index, tb)
        sc.fn(s, **case)
        r = dict(status="ok", labels=sorted(s.labels))
    except Discard:
        r = dict(status="discard")
    except Violated as e:
        r = dict(status="violated", label=e.label)
    except Exception as e:
        import traceback
        r = dict(status="error", error=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-2000:])
        if s is not None:
            r = dict(r, status="violated", label=f"results can be used as documented ({type(e).__name__})")
    finally:
        if Prims.hidden is not None:
            hashlib.algorithms_available, Prims.hidden = Prims.hidden, None
    if s is not None:
        r["inputs"] = s.used
        r["log"] = s.log
        r["env"] = [[a, n, b.hex() if isinstance(b, bytes) else b] for a, n, b in Prims.envlog]
    r["mode"] = mode
    return r


def get(prop_file, name):
    from engine import load
    for sc in load.load(os.path.join(HERE, "scenarios", prop_file), False):
        if sc.name == name:
            return sc
    raise KeyError(name)


def job(j):
    if "jobs" in j:
        return dict(results=[job(x) for x in j["jobs"]])
    sc = get(j["file"], j["scenario"])
    case = j["case"]
    kind = j["kind"]
    t0 = time.time()
    out = dict(runs=0, ok=0, discarded=0, errors=[], violation=None, labels=[])
    labels = set()

    def note(r):
        out["runs"] += 1
        if r["status"] == "ok":
            out["ok"] += 1
            labels.update(r["labels"])
        elif r["status"] == "discard":
            out["discarded"] += 1
        elif r["status"] == "error":
            if len(out["errors"]) < 3:
                out["errors"].append(r)
        elif out["violation"] is None:
            out["violation"] = r
    if kind == "random":
        i = 0
        while (i < j.get("count", 10 ** 9)) and time.time() - t0 < j["limit"] and out["violation"] is None:
            note(one(sc, case, mode=j.get("mode", "fast"), seed=f"{j['seed']}:{i}", inputs=j.get("inputs")))
            i += 1
    elif kind == "replay":
        inputs, env = j["inputs"], j.get("env")
        plan = []
        has_text = any(v[0].startswith("text") and v[1] is None for v in inputs.values())
        for ti in (range(len(TEXTS)) if has_text else (None,)):
            for mode in ("fast", "table"):
                if mode == "table" and not j.get("tables"):
                    continue
                plan.append((mode, ti))
        plan.sort(key=lambda p: p[0] != "table")
        plan.insert(0, ("real", 0 if has_text else None))
        hits = {}
        for mode, ti in plan:
            if time.time() - t0 > j["limit"] or mode in hits:
                continue
            r = one(sc, case, inputs=inputs, env=env, mode=mode, text_index=ti, seed=j["seed"],
                    table=j.get("tables") if mode == "table" else None)
            if r["status"] == "violated":
                hits[mode] = ti
                if mode != "real":
                    # the same inputs with the real primitives
                    r2 = one(sc, case, inputs=inputs, env=env, mode="real", text_index=ti, seed=j["seed"])
                    out["runs"] += 1
                    if r2["status"] == "violated":
                        r = r2
            note(r)
            if out["violation"] is not None:
                break
    elif kind == "exact":
        note(one(sc, case, inputs=j["inputs"], env=j.get("env"), mode=j["mode"], seed=j.get("seed", 0),
                 table=j.get("tables"), text_index=j.get("text_index")))
    out["labels"] = sorted(labels)
    out["wall"] = time.time() - t0
    return out


def main():
    path = sys.argv[1]
    j = json.load(open(path)) if path != "-" else json.load(sys.stdin)
    if "replay" in j:                       # a replay file written by a check
        j = j["replay"]
        install()
        r = job(j)
        v = r["violation"]
        print("reproduced: " + v["label"] if v else "not reproduced")
        for line in (v or {}).get("log", []):
            print("  " + line)
        sys.exit(1 if v else 0)
    install()
    json.dump(job(j), sys.stdout)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    from engine import native
    native.main()
