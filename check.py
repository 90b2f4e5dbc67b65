#!/opt/veriftools/pyvenv/bin/python
"""Run one property check:  check.py <property> [--tier quick|thorough] | --replay FILE"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))


def load_known(pid):
    """known_findings.jsonl: {"property","id","label" (regex),"func","input": {name: regex},"what"}"""
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line or line.startswith("#") or line.startswith("fixed:"):
            continue
        k = json.loads(line)
        if k["property"] != pid:
            continue

        def match(rec, k=k):
            if not re.fullmatch(k["label"], rec["label"]):
                return False
            if "func" in k and k["func"] != rec["func"]:
                return False
            if "detail" in k and not re.search(k["detail"], rec["detail"], re.S):
                return False
            for n, rx in k.get("params", {}).items():
                if not re.fullmatch(rx, str(rec["params"].get(n))):
                    return False
            for n, rx in k.get("input", {}).items():
                v = rec["inputs"].get(n)
                if isinstance(v, dict) and "$b" in v:
                    v = v["$b"]
                if not re.fullmatch(rx, str(v), re.S):
                    return False
            return True

        k["match"] = match
        out.append(k)
    return out


def worker(conn, known):
    from sx import run as R, core, rt

    runner = R.Runner()
    runner.known = known
    while True:
        job = conn.recv()
        if job is None:
            break
        tid, mod, func, params, prefix, seconds = job
        t0 = time.monotonic()
        try:
            pending, error = runner.explore(mod, func, params, prefix, seconds)
            res = {
                "pending": pending, "error": error, "stats": core.ENGINE.stats.as_dict(),
                "violations": runner.violations, "known": runner.known_hits,
                "spurious": runner.spurious, "inconclusive": runner.inconclusive,
                "mismatches": runner.mismatches, "validated": runner.validated,
                "samples": runner.samples, "reached": runner.reached,
                "funcs": sorted(SEEN), "lines": dict((k, sorted(v)) for k, v in LINES.items()),
                "unmodelled": dict(rt.UNMODELLED),
            }
            SEEN.clear()
            LINES.clear()
            rt.UNMODELLED.clear()
        except Exception as e:  # engine failure: never an alarm
            import traceback

            res = {"pending": [], "error": f"engine: {e!r} {traceback.format_exc()[-600:]}", "stats": {}}
        res["tid"] = tid
        res["wall"] = time.monotonic() - t0
        conn.send(res)
    runner.native.close()
    os._exit(0)


CUSTOM = {"T04"}  # properties with their own encoding
SEEN = set()
ALL = [False]
LINES = collections.defaultdict(set)


def monitor(repo):
    """Record which functions (and lines) of the repository the symbolic runs executed."""
    m = sys.monitoring
    tool = m.COVERAGE_ID
    m.use_tool_id(tool, "sx")
    root = os.path.join(repo, "httplint")

    def start(code, off):
        if code.co_filename.startswith(root):
            SEEN.add(os.path.relpath(code.co_filename, repo) + ":" + code.co_qualname)
        return m.DISABLE

    def line(code, ln):
        if code.co_filename.startswith(root):
            LINES[os.path.relpath(code.co_filename, repo)].add(ln)
        return m.DISABLE

    m.register_callback(tool, m.events.PY_START, start)
    m.register_callback(tool, m.events.LINE, line)
    m.set_events(tool, m.events.PY_START | m.events.LINE)


def run_check(pid, tier, jobs, verbose, budget_override=None, only=None):
    t_start = time.monotonic()
    repo = os.environ.get("SX_REPO", "/repo")
    sys.path.insert(0, VERIF)
    from sx import instr

    hmod = importlib.import_module("harness." + pid.lower()) if pid in CUSTOM else None
    if hmod:
        return hmod.run_check(tier, jobs, verbose, VERIF)
    instr.install(repo)
    hmod = importlib.import_module("harness." + pid.lower())
    importlib.import_module("httplint")
    import httplint.field.finder  # noqa

    if hasattr(hmod, "setup_symbolic"):
        hmod.setup_symbolic()
    known = load_known(pid)
    tasks = []
    for t in hmod.tasks(tier):
        t = dict(t)
        if only and not re.search(only, t["func"] + json.dumps(t.get("params", {}))):
            continue
        t.setdefault("module", "harness." + pid.lower())
        t.setdefault("params", {})
        t["stack"] = [[]]
        t["running"] = 0
        t["paths"] = 0
        t["error"] = None
        tasks.append(t)
    budget = budget_override or getattr(hmod, "BUDGET", {}).get(tier, 45 if tier == "quick" else 600)
    SEEN.clear()
    monitor(repo)
    deadline = time.monotonic() + budget
    ctx = mp.get_context("fork")
    workers = []
    for _ in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, known), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    agg = collections.Counter()
    violations, spurious, mismatches, samples, errors = [], [], [], [], []
    inconclusive, known_hits, reached, unmod = (collections.Counter() for _ in range(4))
    funcs = set()
    lines = collections.defaultdict(set)
    validated = 0
    rr = 0
    stop = False
    while True:
        now = time.monotonic()
        runnable = [i for i, t in enumerate(tasks) if t["stack"]]
        if not stop and now < deadline and runnable:
            total = sum(len(tasks[i]["stack"]) for i in runnable)
            for w in workers:
                if w[2] is not None:
                    continue
                runnable = [i for i, t in enumerate(tasks) if t["stack"]]
                if not runnable:
                    break
                # round-robin over tasks, preferring those with the least time spent
                i = min(runnable, key=lambda k: (tasks[k].get("spent", 0) + 2 * tasks[k]["running"]) / tasks[k].get("weight", 1))
                t = tasks[i]
                prefix = t["stack"].pop()
                secs = 1.0 if total > 3 * jobs else 0.25
                secs = max(0.05, min(secs, deadline - now))
                t["running"] += 1
                w[2] = i
                w[1].send((i, t["module"], t["func"], t["params"], prefix, secs))
                w.append(now) if len(w) < 4 else w.__setitem__(3, now)
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            break
        ready = mpc.wait([w[1] for w in busy] + [w[0].sentinel for w in busy], timeout=1.0)
        for w in busy:
            # a stuck or dead worker loses its task slice
            if w[1] in ready:
                try:
                    res = w[1].recv()
                except (EOFError, OSError):
                    res = {"dead": True}
            elif not w[0].is_alive():
                res = {"dead": True}
            elif time.monotonic() - w[3] > 120 or (time.monotonic() > deadline + 25):
                w[0].kill()
                res = {"dead": True, "hung": True}
            else:
                continue
            t = tasks[w[2]]
            t["running"] -= 1
            w[2] = None
            if res.get("dead"):
                t["error"] = "worker lost" + (" (time limit of one slice)" if res.get("hung") else "")
                errors.append({"task": [t["func"], t["params"]], "error": t["error"]})
                w[0].join(1)
                a, b = ctx.Pipe()
                p = ctx.Process(target=worker, args=(b, known), daemon=True)
                p.start()
                b.close()
                w[0], w[1] = p, a
                continue
            t["spent"] = t.get("spent", 0) + res["wall"]
            t["stack"].extend(res["pending"])
            t["paths"] += res["stats"].get("paths", 0)
            if res["error"]:
                t["error"] = res["error"]
                errors.append({"task": [t["func"], t["params"]], "error": res["error"][:800]})
            agg.update(res["stats"])
            violations.extend(res.get("violations", []))
            spurious.extend(res.get("spurious", []))
            mismatches.extend(res.get("mismatches", []))
            if len(samples) < 12:
                samples.extend(res.get("samples", [])[:2])
            inconclusive.update(res.get("inconclusive", {}))
            known_hits.update(res.get("known", {}))
            reached.update(res.get("reached", {}))
            unmod.update(res.get("unmodelled", {}))
            funcs.update(res.get("funcs", []))
            for k, v in res.get("lines", {}).items():
                lines[k].update(v)
            validated += res.get("validated", 0)
        if violations and not ALL[0] and (len(violations) >= 3 or not getattr(hmod, "CONTINUE", False)):
            stop = True
    for w in workers:
        try:
            w[1].send(None)
        except OSError:
            pass
    for w in workers:
        w[0].join(0.5)
        if w[0].is_alive():
            w[0].kill()

    wall = time.monotonic() - t_start
    complete = [t for t in tasks if not t["stack"] and not t["error"]]
    partial = [t for t in tasks if t["stack"] or t["error"]]
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    # violations: one per distinct label
    seen, vout = set(), []
    for v in violations:
        key = (v["label"], v["func"]) if not ALL[0] else (v["label"], v["detail"][-90:])
        if key in seen:
            continue
        seen.add(key)
        h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(outdir, f"{pid}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, **v, "rerun": f"python3-vt /verif/check.py --replay {path}"}, f, indent=1)
        vout.append((v, path))
    all_lines = {}
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "model_checking": {
                "states": agg["paths"],
                "transitions": agg["decisions"],
                "traces_validated_against_impl": validated,
            },
            "samples": [json.dumps(s)[:600] for s in samples[:8]],
        },
        "wall_s": round(wall, 2),
        "assumptions": list(getattr(hmod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "violations": [
            {"what": v["label"] + (": " + v["detail"] if v["detail"] else ""), "replay": p} for v, p in vout
        ],
        "solver": {
            "engine": "z3 (path conditions and assertions; byte-domain propagation for independent byte atoms)",
            "queries": agg["queries"],
            "solver_s": round(agg["solver_s"], 2),
            "unknown": agg["unknown"],
            "assertions": agg["asserts"],
            "assertions_decided_by_path": agg["assert_trivial"],
            "branch_decisions": agg["decisions"],
            "branch_decisions_by_domain": agg["domain_decided"],
        },
        "exploration": {
            "bounds": getattr(hmod, "BOUNDS", {}).get(tier, "") if isinstance(getattr(hmod, "BOUNDS", None), dict) else getattr(hmod, "BOUNDS", ""),
            "outside": getattr(hmod, "OUTSIDE", ""),
            "tasks": len(tasks),
            "tasks_exhausted": len(complete),
            "tasks_partial": [f"{t['func']} {json.dumps(t['params'])} paths={t['paths']} {t['error'] or ''}"[:200] for t in partial][:60],
            "paths_concretised": agg["concretised"],
            "paths_unsupported": agg["unsupported"],
            "inconclusive": dict(inconclusive.most_common(30)),
            "unmodelled_calls_concretised": dict(unmod.most_common(20)),
            "reached": dict(reached),
        },
        "functions_encoded": sorted(funcs),
        "lines_encoded": {k: len(v) for k, v in sorted(lines.items())},
        "known_findings": dict(known_hits),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verbose:
        with open(os.path.join(outdir, pid + ".debug.json"), "w") as f:
            json.dump({"spurious": spurious[:40], "mismatches": mismatches[:20], "errors": errors[:20],
                       "lines": {k: sorted(v) for k, v in lines.items()}}, f, indent=1)
    print(f"{pid} [{tier}] paths={agg['paths']} decisions={agg['decisions']} queries={agg['queries']} solver={agg['solver_s']:.1f}s "
          f"asserts={agg['asserts']} validated={validated} tasks={len(complete)}/{len(tasks)} exhausted, "
          f"concretised={agg['concretised']} unsupported={agg['unsupported']} inconclusive={sum(inconclusive.values())} wall={wall:.1f}s")
    if verbose:
        for k, v in inconclusive.most_common(15):
            print("   inconclusive:", v, k)
        for t in partial[:20]:
            print("   partial:", t["func"], t["params"], t["paths"], (t["error"] or "")[:300])
        for e in errors[:5]:
            print("   error:", e)
        for s in spurious[:6]:
            print("   spurious:", json.dumps(s)[:700])
        for s in mismatches[:4]:
            print("   mismatch:", json.dumps(s)[:1200])
        print("   unmodelled:", dict(unmod.most_common(10)))
        print("   reached:", dict(reached))
    for k in known:
        if known_hits.get(k["id"]):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v, path in vout:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"   {v['label']} | {v['detail'][:600]} | params={json.dumps(v['params'])} inputs={json.dumps(v['inputs'])[:600]}")
    if vout:
        return 1
    if agg["paths"] == 0 or (agg["asserts"] == 0 and validated == 0):
        print("no path reached an assertion: the check decided nothing")
        return 2
    missing = [r for r in getattr(hmod, "MUST_REACH", []) if not reached.get(r)]
    if missing:
        print("warning: not reached within this run:", missing)
    return 0


COMMON_ASSUMPTIONS = [
    "CPython semantics of str/bytes/int/re/dict as modelled in /verif/sx (values.py, rx.py, rt.py); the model is validated on every run by replaying path models on the real interpreter and comparing observations",
    "bounded: every statement holds for all values within the stated lengths/ranges, on the paths explored before the time limit (tasks_exhausted of tasks were explored completely)",
]


def replay(path):
    sys.path.insert(0, VERIF)
    from sx.run import Native

    rec = json.load(open(path))
    if rec["property"] in CUSTOM:
        return importlib.import_module("harness." + rec["property"].lower()).replay(rec)
    n = Native()
    res = n.run({"module": rec["module"], "func": rec["func"], "params": rec["params"], "inputs": rec["inputs"], "obs": True})
    n.close()
    print(json.dumps(res, indent=1))
    return 1 if res and res.get("viol") else 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violations")
    ap.add_argument("--only", help="regex over task name and parameters (debugging)")
    args = ap.parse_args()
    ALL[0] = args.all
    if args.replay:
        sys.exit(replay(args.replay))
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    rc = run_check(args.pid, args.tier, args.jobs, args.v, args.budget, args.only)
    sys.stdout.flush()
    os._exit(rc)
