#!/usr/bin/env python3
"""Decides one property:  python3-vt run.py C01 quick|thorough

Every scenario of the property is executed symbolically on the current source of the package
(all paths), the solver decides its assertions, counterexamples are replayed on the unmodified
package.  Exit 0: held; 1: violation (VIOLATION line); 2: no verdict (the reason is printed)."""
import glob
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for p in glob.glob("/opt/venv/lib/python3*/site-packages"):
    sys.path.append(p)
NATIVE = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4


def scenario_files():
    return sorted(f for f in os.listdir(os.path.join(HERE, "scenarios")) if f.endswith(".py") and f != "spec.py")


def load_all(prop):
    from engine import load
    out = []
    for f in scenario_files():
        src = open(os.path.join(HERE, "scenarios", f)).read()
        if f'"{prop}"' not in src:
            continue
        for sc in load.load(os.path.join(HERE, "scenarios", f), True):
            if sc.prop == prop:
                out.append((f, sc))
    return out


# ------------------------------------------------------------------------ workers
def worker(scs, tasks, results, idle):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from engine import scn
    scn.HUNGRY = lambda: idle.value > 0
    while True:
        with idle.get_lock():
            idle.value += 1
        t = tasks.get()
        with idle.get_lock():
            idle.value -= 1
        if t is None:
            return
        tid, si, case, opts, prefixes = t
        try:
            r = scn.explore(scs[si][1].fn, case, opts, prefixes)
            r.error = None
        except BaseException as e:        # an error of the engine itself
            import traceback
            r = scn.Result()
            r.error = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
        results.put((tid, r))


class Agg:
    def __init__(self):
        self.paths = self.cut = self.asserted = 0
        self.stats = None
        self.labels, self.incomplete, self.unsupported, self.budget = set(), set(), {}, set()
        self.candidates, self.funcs, self.witnesses, self.errors = [], set(), [], []
        self.wall = 0.0

    def add(self, r):
        from engine import core
        self.stats = self.stats or core.Stats()
        self.paths += r.paths
        self.cut += r.cut
        self.asserted += r.asserted
        self.stats.merge(r.stats)
        self.labels |= r.labels
        self.incomplete |= set(r.incomplete)
        for u in r.unsupported:
            self.unsupported[u] = self.unsupported.get(u, 0) + 1
        self.budget |= set(r.budget)
        self.candidates += r.candidates
        self.funcs |= r.funcs
        self.witnesses += r.witnesses
        self.wall += r.wall
        if getattr(r, "error", None):
            self.errors.append(r.error)


def run_jobs(jobs, scs, limit, after=None, listed=()):
    """jobs: list of (key, si, case, opts).  -> {key: Agg}
    after: how long to go on after the first counterexample (of a label that is not listed)"""
    ctx = mp.get_context("fork")
    tasks, results = ctx.Queue(), ctx.Queue()
    n = WORKERS
    idle = ctx.Value("i", 0)
    deadline = time.time() + limit
    procs = [ctx.Process(target=worker, args=(scs, tasks, results, idle), daemon=True) for _ in range(n)]
    for p in procs:
        p.start()
    aggs = {k: Agg() for k, *_ in jobs}
    open_tasks, tid = {}, 0
    backlog = [(k, si, case, opts, [()]) for k, si, case, opts in jobs]
    stop = set()

    def send(t):
        nonlocal tid
        k, si, case, opts, prefixes = t
        o = dict(opts, slice=2.5, deadline=deadline)
        open_tasks[tid] = t
        tasks.put((tid, si, case, o, prefixes))
        tid += 1
    while backlog or open_tasks:
        while backlog and len(open_tasks) < n + 2:
            send(backlog.pop(0))
        try:
            i, r = results.get(timeout=20)
        except queue.Empty:
            if all(p.is_alive() for p in procs) and time.time() < deadline + 120:
                continue
            dead = [p for p in procs if not p.is_alive()]
            for t in open_tasks.values():
                aggs[t[0]].errors.append("a worker process ended" if dead else "no answer within the time limit")
            break
        k, si, case, opts, _ = open_tasks.pop(i)
        a = aggs[k]
        a.add(r)
        if after and any(c["label"] not in listed for c in r.candidates):
            deadline = min(deadline, time.time() + after)
        if time.time() > deadline:
            stop |= set(aggs)
        if len(a.candidates) >= 6 or sum(a.unsupported.values()) > 30 or r.error:
            stop.add(k)
        if r.pending and k not in stop:
            # halves of the work still open; shallow prefixes (big subtrees) are spread
            m = max(1, min(len(r.pending), n - len(open_tasks) - len(backlog) + 1))
            pend = sorted(r.pending, key=len)
            for j in range(m):
                part = pend[j::m]
                if part:
                    backlog.append((k, si, case, opts, part))
        elif r.pending:
            a.budget.add("stopped early")
        for t in backlog:
            if t[0] in stop:
                aggs[t[0]].budget.add("stopped early")
        backlog[:] = [t for t in backlog if t[0] not in stop]
    for _ in procs:
        tasks.put(None)
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    return aggs


# ------------------------------------------------------------------------- native
def native(job, timeout):
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE)
    p = subprocess.Popen([NATIVE, "-m", "engine.native", "-"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p, json.dumps(job), timeout


def native_all(jobs, timeout):
    """run native jobs in parallel -> results (None on failure)"""
    from concurrent.futures import ThreadPoolExecutor

    def go(j):
        p, data, t = native(j, timeout)
        try:
            out, err = p.communicate(data, timeout=t)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return dict(error="native run timed out", violation=None, runs=0, ok=0, discarded=0, errors=[])
        if p.returncode:
            return dict(error=err[-1500:], violation=None, runs=0, ok=0, discarded=0, errors=[])
        return json.loads(out)
    with ThreadPoolExecutor(WORKERS) as ex:
        return list(ex.map(go, jobs))


def js(v):
    k, x = v
    if isinstance(x, bytes):
        return [k, x.hex()]
    if isinstance(x, str):
        return [k, [ord(c) for c in x]]
    return [k, x]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
                d = dict(x.split("=", 1) for x in line.split("{", 1)[1].split("}", 1)[0].split(";") if "=" in x)
                out.append(({k.strip(): v.strip() for k, v in d.items()}, line.strip()))
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    limit = float(os.environ.get("VERIF_LIMIT", "420" if tier == "quick" else "700"))
    scs = load_all(prop)
    if not scs:
        print("no scenario for", prop)
        return 2
    jobs, meta = [], {}
    for si, (f, sc) in enumerate(scs):
        for ci, case in enumerate(sc.cases(tier)):
            k = (si, ci, None)
            jobs.append((k, si, case, dict(max_candidates=3)))
            meta[k] = (f, sc, case)
    aggs = run_jobs(jobs, scs, limit, 30 if tier == "quick" else 240, {d.get("label") for d, _ in known_findings(prop)})
    marks = [("explored", round(time.time() - t0, 1))]

    # paths the encoder could not follow with unknown texts: concrete texts instead
    from engine.native import TEXTS
    retry = []
    for k, si, case, opts in jobs:
        if aggs[k].unsupported and "S.text" in source(scs[si][1].fn):
            for ti in range(4):
                k2 = (si, k[1], ti)
                retry.append((k2, si, case, dict(max_candidates=3, texts=TEXTS, text_index=ti * 3)))
                meta[k2] = meta[k]
    if retry:
        aggs.update(run_jobs(retry, scs, min(120, limit)))

    # counterexamples: replay on the unmodified package
    violations, unresolved, replays = [], [], 0
    seen = {}
    rj = []
    for k, a in sorted(aggs.items(), key=lambda x: repr(x[0])):
        f, sc, case = meta[k]
        for c in a.candidates:
            g = (sc.name, json.dumps(case, sort_keys=True, default=str), c["label"])
            seen.setdefault(g, [])
            if len(seen[g]) < 3:
                seen[g].append(c)
    by_label = {}
    for g in seen:
        by_label.setdefault((g[0], g[2]), []).append(g)
    for lab, gs in by_label.items():
        for g in gs[:4]:
            for c in seen[g]:
                f, sc, case = next(meta[k] for k in meta if meta[k][1].name == g[0] and
                                   json.dumps(meta[k][2], sort_keys=True, default=str) == g[1])
                rj.append((g, c, dict(kind="replay", file=f, scenario=sc.name, case=case, seed=SEED, limit=60,
                                      inputs={n: js(v) for n, v in c["inputs"].items()},
                                      env=[[s, n, b.hex() if isinstance(b, bytes) else b] for s, n, b in c["env"]],
                                      tables=c["tables"])))
    results = native_all([j for _, _, j in rj], 120)
    replays = sum(r.get("runs", 0) for r in results)
    hit_labels = set()
    for (g, c, j), r in zip(rj, results):
        if r.get("violation"):
            violations.append((g, j, r["violation"]))
            hit_labels.add((g[0], g[2]))
    # a counterexample that did not replay: look for a concrete one near it
    search = []
    for lab, gs in by_label.items():
        if lab not in hit_labels:
            search.append(gs[0])
    degraded = []
    for k, a in aggs.items():
        f, sc, case = meta[k]
        why = []
        if a.unsupported:
            why.append(f"{sum(a.unsupported.values())} paths outside the encoding ({', '.join(sorted(a.unsupported)[:3])})")
        if a.budget:
            why.append("; ".join(sorted(a.budget)[:3]))
        if a.errors:
            why.append("engine error: " + a.errors[0])
        if a.incomplete:
            why.append("; ".join(sorted(a.incomplete)))
        if why:
            degraded.append((k, why))
    sj = []
    per = {}
    for g in search:
        f, sc, case = next(m for m in meta.values() if m[1].name == g[0] and json.dumps(m[2], sort_keys=True, default=str) == g[1])
        for w in range(WORKERS):
            sj.append((g, dict(kind="random", file=f, scenario=sc.name, case=case, mode="fast", limit=25, seed=f"{SEED}:{w}")))
    for k, why in degraded[:16]:
        f, sc, case = meta[k]
        g = (sc.name, json.dumps(case, sort_keys=True, default=str), "degraded")
        sj.append((g, dict(kind="random", file=f, scenario=sc.name, case=case, mode="fast", limit=20, seed=f"{SEED}:{k}")))
    # validation of the encoding: the scenario on random concrete inputs
    vj = []
    for si, (f, sc) in enumerate(scs):
        cases = list(sc.cases(tier))
        step = max(1, len(cases) // 6)
        for case in cases[::step][:6]:
            vj.append(((sc.name, json.dumps(case, sort_keys=True, default=str), "validation"),
                       dict(kind="random", file=f, scenario=sc.name, case=case, mode="fast", limit=8, count=4, seed=SEED)))
    groups = chunk([j for _, j in vj], WORKERS)
    sres = native_all([j for _, j in sj] + [dict(jobs=g) for g in groups], 90)
    marks.append(("native", round(time.time() - t0, 1)))
    vres = [None] * len(vj)
    for gi, g in enumerate(groups):
        rs = sres[len(sj) + gi].get("results") or [dict(error=sres[len(sj) + gi].get("error"), violation=None, runs=0)] * len(g)
        for n, r in enumerate(rs):
            vres[gi + n * WORKERS] = r
    validation_runs, native_errors = 0, []
    for (g, j), r in list(zip(sj, sres)) + list(zip(vj, vres)):
        validation_runs += r.get("runs", 0)
        if r.get("violation"):
            v = r["violation"]
            jj = dict(kind="exact", file=j["file"], scenario=j["scenario"], case=j["case"], inputs=v["inputs"],
                      env=v.get("env"), mode=v["mode"], seed=j["seed"])
            violations.append(((g[0], g[1], v["label"]), jj, v))
            hit_labels.add((g[0], v["label"]))
        if r.get("error"):
            native_errors.append(r["error"])
        for e in r.get("errors", []):
            native_errors.append(f"{g[0]} {g[1]}: {e['error']}\n{e['trace'][-600:]}")
    for lab, gs in by_label.items():
        if lab not in hit_labels and not any(h[0] == lab[0] for h in hit_labels):
            unresolved.append(f"{lab[0]}: counterexample to '{lab[1]}' did not reproduce on the real code ({len(gs)} cases, {gs[0][1]})")
    vacuous = []
    for si, (f, sc) in enumerate(scs):
        got = set()
        for k, a in aggs.items():
            if k[0] == si:
                got |= a.labels
        miss = [x for x in sc.expect if x not in got]
        if miss and not violations:
            vacuous.append(f"{sc.name}: never reached {miss}")

    # known findings
    kf = known_findings(prop)
    listed, fresh = [], []
    for v in violations:
        g = v[0]
        hit = None
        for d, line in kf:
            case = json.loads(g[1])
            if d.get("scenario") == g[0] and d.get("label") == g[2] and all(
                    str(case.get(x[5:])) == y for x, y in d.items() if x.startswith("case.")):
                hit = line
        (listed if hit else fresh).append((v, hit))
    for line in sorted({h for _, h in listed}):
        print(line.split("{")[0].strip() if "{" in line else line)
    rc = 0
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    shown = set()
    for (g, j, v), _ in fresh:
        if (g[0], g[2]) in shown:
            continue
        shown.add((g[0], g[2]))
        path = os.path.join(HERE, "evidence", "replay", f"{prop}-{len(shown)}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, violated=v["label"], scenario=g[0], case=json.loads(g[1]), mode=v["mode"],
                           inputs=v.get("inputs"), calls=v.get("log"), replay=j,
                           rerun=f"cd {HERE} && {NATIVE} -m engine.native {path}"), fh, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {g[0]} {g[1]}: {v['label']}  [primitives: {v['mode']}]")
        for line in (v.get("log") or [])[:12]:
            print("    " + line)
        rc = 1
    write_evidence(prop, tier, t0, scs, aggs, meta, dict(
        violations=len(fresh), listed=len(listed), unresolved=unresolved, degraded=degraded, replays=replays,
        validation_runs=validation_runs, vacuous=vacuous, native_errors=native_errors))
    if rc == 0 and (vacuous or native_errors):
        for x in vacuous + native_errors[:5]:
            print("NO VERDICT:", x)
        rc = 2
    if rc != 1:
        for x in unresolved:
            print("UNDECIDED:", x)
    if rc != 1 and degraded and not listed:
        for k, why in degraded[:5]:
            print("PARTLY UNDECIDED:", meta[k][1].name, meta[k][2], "; ".join(why)[:600])
    tot = sum(a.paths for a in aggs.values())
    st = total(aggs)
    if os.environ.get("SX_TIMES"):
        print(marks)
    print(f"{prop} {tier}: {tot} paths, {st['asserts']} assertions ({st['trivial']} by normal form), {st['queries']} queries, "
          f"{st['solver_time']:.1f} s solver, {time.time() - t0:.1f} s, exit {rc}")
    return rc


def chunk(items, n):
    return [items[i::n] for i in range(n) if items[i::n]]


def source(fn):
    import inspect
    try:
        lines = open(fn.__code__.co_filename).read().splitlines()
        return "\n".join(lines[fn.__code__.co_firstlineno - 1:fn.__code__.co_firstlineno + 80])
    except OSError:
        return ""


def total(aggs):
    d = dict(queries=0, sat=0, unsat=0, unknown=0, solver_time=0.0, branches=0, asserts=0, trivial=0)
    for a in aggs.values():
        if a.stats:
            for k in d:
                d[k] += getattr(a.stats, k)
    return d


def write_evidence(prop, tier, t0, scs, aggs, meta, x):
    st = total(aggs)
    per = {}
    for k, a in aggs.items():
        f, sc, case = meta[k]
        p = per.setdefault(sc.name, dict(bounds=sc.bounds, cases=0, paths=0, infeasible_or_cut=0, assertions=0, labels=set(), undecided=[]))
        p["cases"] += 1
        p["paths"] += a.paths
        p["infeasible_or_cut"] += a.cut
        p["assertions"] += a.asserted
        p["labels"] |= a.labels
    for k, why in x["degraded"]:
        per[meta[k][1].name]["undecided"].append([meta[k][2], why])
    for p in per.values():
        p["labels"] = sorted(p["labels"])
    funcs = sorted(set().union(*[a.funcs for a in aggs.values()]))
    samples = []
    for k, a in list(aggs.items())[:3]:
        samples.append(dict(scenario=meta[k][1].name, case=meta[k][2], paths=a.paths))
    ev = dict(property=prop, tier=tier, seed=SEED, level="other", wall_s=round(time.time() - t0, 2), violations=x["violations"],
              coverage=dict(
                  explanation="Symbolic execution of the package's current source on every path within the bounds; each assertion "
                              "of the scenarios is decided for all values of the symbolic inputs, either because both sides have "
                              "one normal form under the path condition or by an SMT query (z3); hash, KDF, AES and curve "
                              "arithmetic are contracts (uninterpreted functions with their algebraic laws).",
                  functions_encoded=funcs, scenarios=per, paths=sum(a.paths for a in aggs.values()),
                  assertions=st["asserts"], assertions_by_normal_form=st["trivial"], branch_decisions=st["branches"],
                  queries=dict(total=st["queries"], sat=st["sat"], unsat=st["unsat"], unknown=st["unknown"]),
                  solver_time_s=round(st["solver_time"], 2), replays=x["replays"], concrete_validation_runs=x["validation_runs"],
                  exhaustive=not x["degraded"] and not x["unresolved"], unresolved=x["unresolved"], vacuous=x["vacuous"],
                  native_errors=x["native_errors"][:3], known_findings_seen=x["listed"], samples=samples),
              assumptions=["SHA-256, RIPEMD-160 (OpenSSL), scrypt, AES-256 (pyaes) and secp256k1 arithmetic (ecdsa) are correct; "
                           "in the encoding they are deterministic functions with arbitrary outputs, AES being a permutation per key "
                           "and points adding and multiplying as a group of prime order",
                           "the interpreter semantics implemented in /verif/engine, validated by concrete runs"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
