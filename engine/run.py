"""Decides one property:  run.py <ID> [--tier quick|thorough] [--only harness] [--jobs n]"""
import argparse
import json
import math
import multiprocessing as mp
import os
import select
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
HARNESS = os.path.join(ROOT, "harness")
REPLAY_PY = "/opt/venv/bin/python"


class Replayer:
    """The real code, in a process of its own."""

    def __init__(self, module, name, params, limit=40):
        self.base = {"module": module, "name": name, "params": params}
        self.p = None
        self.limit = limit
        self.n = 0

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTHONHASHSEED="0", SCRATCH="/nonexistent")
        self.p = subprocess.Popen([REPLAY_PY, "-B", os.path.join(HERE, "concrete.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, cwd="/")

    def run(self, inputs):
        self.n += 1
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps(dict(self.base, inputs=inputs)) + "\n")
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], self.limit)
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {"failed": [], "exc": None, "assume": False, "miss": None, "hang": True, "observed": []}
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"failed": [], "exc": None, "assume": False, "miss": "replay died", "observed": []}
        return json.loads(line)

    def what(self, inputs):
        o = self.run(inputs)
        if o.get("assume") or o.get("miss"):
            self.last = o
            return None
        if o.get("hang"):
            return "does not end within %d s" % self.limit
        if o["failed"]:
            return "; ".join(sorted(set(o["failed"])))
        if o["exc"]:
            return "raises " + o["exc"]
        self.last = o
        return None

    def sample(self, inputs, seed):
        o = self.run(dict(inputs, __free__=seed))
        if o.get("assume") or o.get("miss") or o.get("hang"):
            return inputs, None
        if not o["failed"] and not o["exc"]:
            return inputs, None
        full = o.get("inputs", inputs)
        what = self.what(full)
        if what is not None and not o.get("hang"):
            for j in range(5):
                o = self.run(dict(full, __jitter__=seed + j))
                if not (o.get("assume") or o.get("miss") or o.get("hang") or o["failed"] or o["exc"]):
                    return inputs, None
        return full, what

    def close(self):
        if self.p is not None and self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def same(a, b):
    if isinstance(a, list) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a == "?" or b == "?":
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-5 * (1 + abs(b))
    return a == b


def functions_seen(loader):
    return None


def job(args):
    module, name, params, tier, tlimit, only_paths = args
    t0 = time.time()
    from engine import core, hooks, state
    res = {"harness": name, "params": params, "error": None, "violations": [], "witness_ok": 0, "witness_bad": [],
           "functions": []}
    rep = None
    try:
        loader = hooks.Loader(harness_dir=HARNESS)
        loader.load(module)
        api = loader.modules["api"]
        h = api.REG[name]
        # which functions of /repo run (by name, as they are entered)
        seen = set()
        mods = {m.__file__: n for n, m in loader.modules.items() if m.__file__.startswith(loader.repo)}

        def prof(frame, event, arg):
            if event == "call":
                f = frame.f_code.co_filename
                if f in mods and not frame.f_code.co_name.startswith("<"):
                    seen.add(mods[f] + "." + frame.f_code.co_qualname)
        rep = Replayer(module, name, params)
        opts = dict(h.opts)
        ex = core.Explorer(h, params, mode=params.get("mode", h.mode), time_limit=tlimit or params.get("time", h.time),
                           replay=rep.what, sampler=rep.sample, **opts)
        core.CTX = None
        kept = []

        def call(c):
            real = [m for n, m in loader.modules.items() if n != "api"]
            if kept:
                kept[0].restore()
            if not kept or len(kept[0].modules) != len(real):
                kept[:] = [state.State(real)]
            if ex.stats.paths < 3:
                mods.update({m.__file__: n for n, m in loader.modules.items() if m.__file__.startswith(loader.repo)})
                sys.setprofile(prof)
            try:
                h.fn(c, params)
            finally:
                sys.setprofile(None)
        ex.run(call)
        s = ex.stats
        for inputs, obs in ex.witnesses:
            o = rep.run(inputs)
            ok = not o.get("assume") and not o.get("miss") and not o["failed"] and not o["exc"] and not o.get("hang")
            if ok:
                d = dict((n, v) for n, v in o["observed"])
                for n, v in obs:
                    if n not in d or not same(v, d[n]):
                        ok = False
                        o["mismatch"] = [n, v, d.get(n)]
            if ok:
                res["witness_ok"] += 1
            elif not s.exceptions and not ex.violations:
                o.pop("observed", None)
                res["witness_bad"].append({"inputs": inputs, "got": o})
        res["sample"] = ex.witnesses[0] if ex.witnesses else None
        res["violations"] = [{"label": v.label, "inputs": v.inputs, "what": v.detail} for v in ex.violations]
        res["functions"] = sorted(seen)
        res.update(paths=s.paths, decisions=s.decisions, queries=s.queries, solver_s=s.solver_s, checks=s.checks,
                   unknown=s.unknown, unknown_branches=s.unknown_branches, unsupported=s.unsupported,
                   infeasible=s.infeasible, budget=s.budget, concretised=s.concretised, covers=sorted(s.covers),
                   sampled=ex.samples, exceptions=s.exceptions, labels=s.labels, unreplayed=s.unreplayed, replays=rep.n)
    except BaseException as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()[-3000:]
    finally:
        if rep is not None:
            rep.close()
    res["wall"] = time.time() - t0
    return res


def worker(conn, args):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    r = job(args)
    conn.send(r)
    conn.close()


def pool(jobs, n, hard):
    """Each job in a process of its own, n at a time; hard: seconds after which one is ended."""
    pending = list(enumerate(jobs))
    running = {}
    out = [None] * len(jobs)
    while pending or running:
        while pending and len(running) < n:
            i, a = pending.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=worker, args=(w, a))
            p.start()
            w.close()
            running[i] = (p, r, time.time(), a)
        ready = mp.connection.wait([v[1] for v in running.values()], timeout=1.0)
        for i in list(running):
            p, r, t0, a = running[i]
            if r in ready:
                try:
                    out[i] = r.recv()
                except EOFError:
                    out[i] = {"harness": a[1], "params": a[2], "error": "worker died", "violations": []}
                p.join()
                del running[i]
            elif time.time() - t0 > (a[4] or 100) + hard:
                p.kill()
                p.join()
                out[i] = {"harness": a[1], "params": a[2], "error": "out of time", "violations": []}
                del running[i]
    return out


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == pid and f["status"] == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--params", help="only the jobs whose parameters contain this text")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    pid = a.pid
    module = "p_" + pid.lower()
    from engine import hooks
    # the registry is read in a throw-away loader
    loader = hooks.Loader(harness_dir=HARNESS)
    err = None
    try:
        loader.load(module)
    except BaseException as e:
        err = "%s: %s" % (type(e).__name__, e)
        traceback.print_exc()
    if err:
        print("ERROR property=%s the modules do not load: %s" % (pid, err))
        sys.exit(3)
    m = loader.modules[module]
    api = loader.modules["api"]
    jobs = []
    for h in api.REG.values():
        if not hasattr(h, "fn"):
            continue
        if a.only and h.name != a.only and not (a.only[0] == "_" and h.name.endswith(a.only)):
            continue
        for params in (h.thorough if tier == "thorough" else h.quick):
            if a.params and a.params not in json.dumps(params):
                continue
            lim = params.get("time", h.time)
            jobs.append((module, h.name, params, tier, lim, None))
    jobs.sort(key=lambda j: -(j[4] or 0))
    results = pool(jobs, a.jobs, 60)
    known = known_findings(pid)
    viol, knownhit, inconclusive = [], [], []
    for r in results:
        for v in r["violations"]:
            hit = None
            for k in known:
                if k["harness"] == r["harness"] and k["label"] == v["label"]:
                    hit = k
            (knownhit if hit else viol).append((r, v, hit))
        if r.get("error"):
            inconclusive.append("%s %s: %s" % (r["harness"], r["params"], r["error"]))
        for k, n in (r.get("unsupported") or {}).items():
            inconclusive.append("%s %s: %d paths not encoded (%s)" % (r["harness"], r["params"], n, k))
        if r.get("budget"):
            inconclusive.append("%s %s: stopped at its budget, %d subtrees left" % (r["harness"], r["params"], r["budget"]))
        if r.get("unknown"):
            inconclusive.append("%s %s: %d queries unknown" % (r["harness"], r["params"], r["unknown"]))
        for k, (n, inp) in (r.get("unreplayed") or {}).items():
            inconclusive.append("%s %s: %d counterexamples to '%s' did not replay, e.g. %s" % (
                r["harness"], r["params"], n, k, json.dumps(inp)[:600]))
        for w in r.get("witness_bad", []):
            inconclusive.append("%s %s: a witness differs on the real code: %s" % (
                r["harness"], r["params"], json.dumps(w)[:900]))
        if not r.get("error") and not r.get("checks"):
            inconclusive.append("%s %s: no requirement was reached" % (r["harness"], r["params"]))
    for line in inconclusive:
        print("INCONCLUSIVE property=%s %s" % (pid, line))
    if a.verbose:
        for r in results:
            print(" ".join("%s=%s" % (k, json.dumps(r[k])) for k in (
                "harness", "params", "paths", "queries", "checks", "infeasible", "witness_ok", "exceptions", "covers",
                "concretised", "unknown_branches", "error", "tb") if r.get(k)) + " solver=%.1f wall=%.1f" % (
                r.get("solver_s") or 0, r.get("wall") or 0))
    seen_known = set()
    for r, v, k in knownhit:
        if k["id"] not in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            seen_known.add(k["id"])
    ok_jobs = [r for r in results if not r.get("error")]
    done = [r for r in ok_jobs if r.get("checks")]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sum(r.get("paths", 0) for r in ok_jobs),
            "transitions": sum(r.get("decisions", 0) for r in ok_jobs),
            "traces_validated_against_impl": sum(r.get("witness_ok", 0) for r in ok_jobs),
            "samples": [{"harness": r["harness"], "params": r["params"], "witness": r["sample"][0]}
                        for r in ok_jobs if r.get("sample")][:6],
            "meaning": "states: symbolic paths of the real code run to their end (each covers every input that takes "
                       "it); transitions: decisions the solver split on; traces: one solver-made input per sampled "
                       "path, replayed on the unmodified code with the same observations",
            "functions_encoded": sorted({f for r in ok_jobs for f in r.get("functions", [])}),
            "harnesses": [{"name": r["harness"], "params": r["params"], "paths": r.get("paths"),
                           "requirements_discharged": r.get("checks"), "queries": r.get("queries"),
                           "solver_s": round(r.get("solver_s", 0), 2), "unfinished": bool(
                               r.get("budget") or r.get("unsupported") or r.get("unknown")),
                           "paths_sampled_only": r.get("sampled", 0)} for r in ok_jobs],
            "queries": sum(r.get("queries", 0) for r in ok_jobs),
            "solver_s": round(sum(r.get("solver_s", 0) for r in ok_jobs), 2),
            "requirements_discharged": sum(r.get("checks", 0) for r in ok_jobs),
            "paths_infeasible": sum(r.get("infeasible", 0) for r in ok_jobs),
            "bounds": getattr(m, "BOUNDS", ""),
            "inconclusive": inconclusive,
            "exhaustive": not inconclusive,
        },
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s tier=%s harness jobs=%d paths=%d queries=%d requirements=%d validated=%d solver=%.1fs wall=%.1fs" % (
        pid, tier, len(results), ev["coverage"]["states"], ev["coverage"]["queries"],
        ev["coverage"]["requirements_discharged"], ev["coverage"]["traces_validated_against_impl"],
        ev["coverage"]["solver_s"], ev["wall_s"]))
    if viol:
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        for n, (r, v, _) in enumerate(viol):
            path = os.path.join(ROOT, "evidence", "replay", "%s_%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"module": module, "name": r["harness"], "params": r["params"], "inputs": v["inputs"],
                           "label": v["label"], "what": v["what"]}, f, indent=1)
            print("  %s %s: %s  [on the real code: %s]" % (r["harness"], r["params"], v["label"], v["what"]))
            print("  inputs: %s" % json.dumps(v["inputs"])[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if not done:
        print("ERROR property=%s nothing was explored" % pid)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
