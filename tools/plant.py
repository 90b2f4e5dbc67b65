"""Plant a bug: python3 tools/plant.py SPEC...   (SPEC: a Python file with ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)

Works in a scratch copy of /repo: applies EDITS [(file under /repo, old, new)], checks that the demo passes
without them and fails with them and that the stable tests pass, and writes seeded/<ID>/.  With --try, then runs
the property's quick check against the copy.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(path, attempt):
    spec = runpy.run_path(path)
    sid, pid = spec["ID"], spec["PROPERTY"]
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(work, "repo")
        sh(f"cp -a /repo {repo}")
        demo = os.path.join(work, "demo")
        os.mkdir(demo)
        with open(os.path.join(demo, "demo.sh"), "w") as fh:
            fh.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(os.path.join(demo, "demo.py"), "w") as fh:
            fh.write(spec["DEMO"].lstrip("\n"))
        r = sh(f"bash {demo}/demo.sh", cwd=repo)
        if r.returncode != 0:
            return f"{sid}: the demo fails on the unchanged tree:\n{r.stdout}"
        for f, old, new in spec["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{sid}: {s.count(old)} occurrences in {f} of {old!r}"
            # lines of the original repository
            blame = sh(f"git -C {repo} blame -s --abbrev=40 -- {f}").stdout.splitlines()
            root = open("/verif/tools/base_commit").read().strip()
            mine = set(sh(f"git -C {repo} rev-list {root}..HEAD").stdout.split())
            start = s[: s.index(old)].count("\n")
            changed = []
            import difflib
            a, b = s.splitlines(), s.replace(old, new).splitlines()
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
                if tag != "equal":
                    changed += range(i1, i2)
            bad = [i + 1 for i in changed if blame[i].split()[0].lstrip("^") in mine]
            if bad:
                print(f"{sid}: note: {f} lines {bad} are from our own commits")
            if not changed:
                print(f"{sid}: note: only adds lines to {f}")
            open(p, "w").write(s.replace(old, new))
        r = sh(f"bash {demo}/demo.sh", cwd=repo)
        if r.returncode == 0:
            return f"{sid}: the demo passes with the change"
        shown = r.stdout.strip().splitlines()[-1:]
        script = open("/opt/vp/test.sh").read().replace("/repo", repo)
        with open(os.path.join(work, "test.sh"), "w") as fh:
            fh.write(script)
        # results.py may map paths of /repo
        r = sh(f"bash {work}/test.sh {work}/out.json")
        out = json.load(open(f"{work}/out.json"))
        passed = set(out.get("passed", []))
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = set(base["stable"])
        missing = base - passed
        if missing:
            return f"{sid}: tests fail: {sorted(missing)[:5]}\n{r.stdout[-1500:]}"
        patch = sh(f"git -C {repo} diff").stdout
        dest = os.path.join(VERIF, "seeded", sid)
        os.makedirs(dest, exist_ok=True)
        with open(os.path.join(dest, "patch.diff"), "w") as fh:
            fh.write(patch)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(demo, n), os.path.join(dest, n))
        os.chmod(os.path.join(dest, "demo.sh"), 0o755)
        with open(os.path.join(dest, "meta.json"), "w") as fh:
            json.dump({"property": pid, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, fh, indent=2)
            fh.write("\n")
        msg = f"{sid}: planted ({shown})"
        if attempt:
            t = sh(f"SX_REPO={repo} python3-vt {VERIF}/check.py {pid} 2>&1 | cut -c1-300 | tail -n 12", env=dict(os.environ, SX_REPO=repo, VERIF_TIER="quick", VERIF_SEED="1"))
            caught = re.search(r"VIOLATION property=" + pid, t.stdout)
            msg += "  CAUGHT" if caught else "  MISSED\n" + t.stdout
        return msg
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    attempt = "--try" in args
    for a in args:
        if not a.startswith("--"):
            print(plant(a, attempt), flush=True)
