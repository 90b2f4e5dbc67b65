"""T04: no short value makes linting take exponential time."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import time

LENGTH = {"quick": 8, "thorough": 14}
TIMEOUT = {"quick": 120, "thorough": 400}


def run_check(tier, jobs, verbose, verif):
    from sx import redos

    t_start = time.monotonic()
    patterns = redos.capture()
    outside, shapes, positions = [], {}, 0
    ctx = mp.get_context("fork")
    queries = solver_s = unknown = 0
    harmless, undecided, violations = [], [], []
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx) as pool:
        todo = [(p, f, b) for p, f, b, _ in patterns]
        for (p, f, b, where), (comps, n) in zip(patterns, pool.map(redos.analyse, todo)):
            if comps is None:
                outside.append(" ".join(p.split())[:80])
                continue
            positions += n
            for shape, prefixes in comps:
                shapes.setdefault(shape, []).append((p, where, prefixes))
        order = sorted(shapes, key=lambda s: -s[0])
        jobs_ = {pool.submit(redos.solve, s, LENGTH[tier], TIMEOUT[tier]): s for s in order}
        for fut in cf.as_completed(jobs_):
            shape = jobs_[fut]
            res, st = fut.result()
            queries += st["queries"]
            solver_s += st["solver_s"]
            unknown += st["unknown"]
            uses = shapes[shape]
            if res == "unknown":
                undecided.append(" ".join(uses[0][0].split())[:80])
            elif res:
                violations.append((res, uses))
    found = []
    with cf.ThreadPoolExecutor(jobs) as pool:
        hits = list(pool.map(lambda v: confirm(redos, *v), violations))
    for ((q, masks), uses), (word, p, hit) in zip(violations, hits):
        if hit:
            found.append({"label": "a short value takes exponential time to lint", "detail": f"{len(hit[2])} bytes took {hit[3]:.1f} s",
                          "func": "attack", "params": {"kind": hit[0], "field": hit[1], "value": hit[2].decode("latin-1")}, "inputs": {}, "pattern": p[:300]})
        else:
            harmless.append({"pattern": " ".join(uses[0][0].split())[:120], "word": word.decode("latin-1")})
    outdir = os.path.join(verif, "out")
    os.makedirs(outdir, exist_ok=True)
    vout = []
    for v in found:
        h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(outdir, f"T04-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": "T04", **v, "rerun": f"python3-vt /verif/check.py --replay {path}"}, f, indent=1)
        vout.append((v, path))
    largest = max([s[0] for s in shapes] or [0])
    ev = {
        "property": "T04", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "model_checking": {"states": positions, "transitions": sum(len(s[1]) for s in shapes), "traces_validated_against_impl": len(violations)},
            "samples": [json.dumps({"pattern": " ".join(u[0][0].split())[:120], "positions": s[0], "fields": u[0][1][:3]}) for s, u in list(shapes.items())[:8]],
        },
        "wall_s": round(time.monotonic() - t_start, 2),
        "assumptions": ASSUMPTIONS,
        "violations": [{"what": v["label"] + ": " + v["detail"], "replay": p} for v, p in vout],
        "solver": {"engine": "z3 (QF_FD)", "queries": queries, "solver_s": round(solver_s, 2), "unknown": unknown},
        "exploration": {
            "bounds": BOUNDS[tier], "outside": OUTSIDE, "patterns": len(patterns), "components": len(shapes), "largest_component": largest,
            "ambiguous_but_no_slow_value_found": harmless, "undecided": undecided, "patterns_outside_the_encoding": outside,
        },
        "functions_encoded": sorted({"regular expressions used for " + n for _, _, _, w in patterns for _, n in w if n}),
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", "T04.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"T04 [{tier}] patterns={len(patterns)} components={len(shapes)} queries={queries} solver={solver_s:.1f}s undecided={len(undecided)} "
          f"ambiguous={len(violations)} slow={len(vout)} wall={ev['wall_s']:.1f}s")
    if verbose:
        for x in harmless + undecided + outside:
            print("   ", x)
    for v, path in vout:
        print(f"VIOLATION property=T04 replay={path}")
        print(f"   {v['label']} | {v['detail']} | {json.dumps(v['params'])}")
    if vout:
        return 1
    if not queries:
        print("nothing was decided")
        return 2
    return 0


def confirm(redos, res, uses):
    q, masks = res
    word = b"".join(redos.pick(m) for m in masks)
    for p, where, prefixes in uses[:3]:
        hit = redos.confirm(where, prefixes[q], word)
        if hit:
            return word, p, hit
    return word, uses[0][0], None


def replay(rec):
    from sx import redos

    p = rec["params"]
    t = redos.attack(p["kind"], p["field"], p["value"].encode("latin-1"))
    print(json.dumps({"seconds": t, "limit": redos.LIMIT}))
    return 1 if t > redos.LIMIT else 0


def tasks(tier):
    return []


BUDGET = {"quick": 150, "thorough": 850}
BOUNDS = {
    "quick": "every regular expression that linting uses on the values of harness/seeds.py and 14 generic values of every known field, and on request targets: no position can be reached from itself in two ways over any word of up to 8 bytes",
    "thorough": "as quick, words of up to 14 bytes",
}
OUTSIDE = "repetition of longer words; polynomial time; loops that aren't regular expressions; look-ahead at more than one character (ignored, so ambiguity that it removes is only dismissed by timing)"
ASSUMPTIONS = [
    "CPython's backtracking matcher explores the ways to match that the expression's automaton has; an ambiguity is only reported when a value of at most 400 bytes built from the solver's word takes more than 4 s of CPU time in the unmodified linter",
    "the regular expressions in use are those recorded while the real linter processes the sample values",
]
