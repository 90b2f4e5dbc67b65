#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (harnesses that exist are claimed)."""
import json
import ast
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa

TECH = "symbolic execution of the real Python source (AST-instrumented) with z3 deciding path conditions and assertions"
NOTE = ("Bounded: within the bounds written to the evidence file, z3 decides the assertion for every value on every explored path "
        "(tasks_exhausted lists the tasks explored completely); counterexamples are replayed on the unmodified code before they are reported. "
        "Trusts the model of CPython's str/bytes/int/re/dict in /verif/sx, which every run cross-checks by replaying path models natively. ")


def constants(pid):
    out = {}
    path = os.path.join(VERIF, "harness", pid.lower() + ".py")
    tree = ast.parse(open(path).read())
    out["doc"] = ast.get_docstring(tree)
    for st in tree.body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], "id", None) in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS", "BUDGET"):
            try:
                out[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError:
                pass
    return out


def planted():
    missed = json.load(open(os.path.join(HERE, "missed.json")))
    rows = ["| Bug | Check that catches it | Needs | |", "|---|---|---|---|"]
    seeded = os.path.join(VERIF, "seeded")
    for name in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, name, "meta.json")))
        rows.append(f"| {name} | {m['property']} | {m['needs'].replace('|', ' ')} | {missed.get(name, '')} |")
    return rows


def design(claimed):
    out = [open(os.path.join(HERE, "design_head.md")).read(), "## Properties\n"]
    for p in claimed:
        c = constants(p["id"])
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        if p.get("oracle"):
            out.append("*Oracle:* " + p["oracle"] + "\n")
        b = c.get("BOUNDS", {})
        for t in ("quick", "thorough"):
            if t in b:
                out.append(f"*{t.capitalize()} bounds* (at most {c.get('BUDGET', {}).get(t, '?')} s): {b[t]}\n")
        if c.get("OUTSIDE"):
            out.append("*Outside:* " + c["OUTSIDE"] + "\n")
        out.append("*Beyond the tests:* " + p["why"] + "\n")
    out.append("## Not applicable\n")
    for n in NOT_APPLICABLE:
        out.append(f"- **{n['id']}** {n['title']}: {n['reason']}")
    out.append(open(os.path.join(HERE, "design_tail.md")).read())
    out.append("\n".join(planted()) + "\n")
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


OVER = {"clock": "inputs", "faults": "fault_sequences"}


def over(p):
    return list(dict.fromkeys(OVER.get(o, o) for o in p.get("over", ["inputs"])))


def main():
    props, checks, claimed = [], [], []
    for p in PROPS:
        if not os.path.exists(os.path.join(VERIF, "harness", p["id"].lower() + ".py")):
            continue
        claimed.append(p)
        props.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": over(p), "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", ["notes", "parsed field values"]), "hook_needed": None},
        })
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3-vt /verif/check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3-vt /verif/check.py {p['id']} --tier thorough",
            "technique": TECH, "level": "model_checking", "level_note": NOTE + p.get("note", ""),
        })
    for n in NOT_APPLICABLE:
        props.append({
            "id": n["id"], "title": n["title"], "statement": n["statement"],
            "quantifier": {"over": over(n), "text": n["forall"]}, "why_tests_cant": n["why"],
            "anchors": {"files": n["files"], "mechanism": [{"name": a, "where": w} for a, w in n["mech"]], "hook_needed": None},
        })
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3-vt /verif/tools/setup.py",
        "checks": checks,
        "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
        "notes": "One engine (/verif/sx), one harness module per property (/verif/harness). No hooks in /repo.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design(claimed)
    print(len(checks), "checks,", len(NOT_APPLICABLE), "not applicable")


main()
