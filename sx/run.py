"""Harness execution: symbolic inputs, assertions, counterexample replay, per-path validation."""
import importlib
import json
import os
import select
import subprocess
import sys
import time
import traceback

import z3

from . import core, hashmodel, instr, rx, rt, values as V
from .core import ENGINE, Control, Infeasible, Unsupported, Stop
from .state import State
from .formula import FULL, Atom, Z, Not, And, Or, mask_of

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY_NATIVE = "/opt/venv/bin/python"


# ------------------------------------------------------------------ JSON codec for inputs/outputs
def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).decode("latin-1")}
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return x
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {"$d": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {"$s": sorted((enc(i) for i in x), key=repr)}
    return {"$r": type(x).__name__}


def dec(x):
    if isinstance(x, dict):
        if "$b" in x:
            return x["$b"].encode("latin-1")
        if "$d" in x:
            return {dec(k): dec(v) for k, v in x["$d"]}
        raise ValueError(x)
    if isinstance(x, list):
        return [dec(i) for i in x]
    return x


# ------------------------------------------------------------------ symbolic side
class SymInp:
    native = False

    def __init__(self, path):
        self.p = path

    def _reg(self, name, v):
        if name in self.p.inputs:
            raise RuntimeError(f"duplicate input {name}")
        self.p.inputs[name] = v
        return v

    def bytes(self, name, n, alphabet=None):
        mask = FULL if alphabet is None else mask_of(alphabet)
        v = V.mkseq([V.Ch(self.p.var(f"{name}.{i}", mask)) for i in range(n)], False)
        return self._reg(name, v)

    def text(self, name, n, alphabet=None):
        mask = FULL if alphabet is None else mask_of(alphabet)
        v = V.mkseq([V.Ch(self.p.var(f"{name}.{i}", mask)) for i in range(n)], True)
        return self._reg(name, v)

    def int(self, name, lo, hi):
        z = z3.Int("i!" + name)
        self.p.assume_cheap(Z(z3.And(z >= lo, z <= hi)))
        return self._reg(name, V.SymInt(z))

    def bool(self, name):
        return self._reg(name, V.SymBool(Z(z3.Bool("b!" + name))))

    def choice(self, name, options):
        options = list(options)
        if not options:
            raise Infeasible()
        i = self.p.choose(len(options))
        self._reg(name, i)
        return options[i]

    def assume(self, cond):
        self.p.assume(V.bf(cond))

    def fixed(self, name, v):
        return self._reg(name, v)


class Chk:
    """Assertions over the current path (symbolic)."""

    native = False

    def __init__(self, runner, path):
        self.r = runner
        self.p = path
        self.n = 0

    def __call__(self, cond, label, **info):
        self.n += 1
        st = ENGINE.stats
        st.asserts += 1
        f = V.bf(cond)
        if f is True:
            st.assert_trivial += 1
            return
        if f is False:
            if self.p.check() is False:
                raise Infeasible()
            self.r.counterexample(self.p, self.p.model, label, info)
            raise Stop()
        r = self.p.check(Not(f))
        if r is None:
            self.r.note_inconclusive("solver unknown on assertion " + label)
            return
        if r:
            self.r.counterexample(self.p, self.p.model, label, info)
            raise Stop()

    def eq(self, a, b, label, **info):
        self(a == b, label, got=a, want=b, **info)

    def obs(self, name, value):
        self.p.obs.append((name, value))

    def reach(self, name):
        self.r.reached[name] = self.r.reached.get(name, 0) + 1


class Native:
    """Persistent native replay worker."""

    def __init__(self, hashseed="0"):
        self.proc = None
        self.hashseed = hashseed

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED=self.hashseed, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        self.proc = subprocess.Popen(
            [PY_NATIVE, os.path.join(VERIF, "sx", "native.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=env, cwd="/",
        )
        self.buf = b""

    def close(self):
        if self.proc:
            try:
                self.proc.kill()
                self.proc.wait()
                self.proc.stdin.close()
                self.proc.stdout.close()
            except OSError:
                pass
            self.proc = None

    def run(self, task, timeout=30):
        if self.proc is None or self.proc.poll() is not None:
            self.close()
            self.start()
        try:
            self.proc.stdin.write(json.dumps(task).encode() + b"\n")
            self.proc.stdin.flush()
        except OSError:
            self.close()
            return None
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                self.close()
                return {"timeout": True}
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            data = os.read(fd, 1 << 16)
            if not data:
                self.close()
                return {"died": True}
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


# ------------------------------------------------------------------ the runner
class Runner:
    def __init__(self):
        self.native = Native()
        self.known = []
        self.max_violations = 3
        self.validate_every = 25
        self.state = None
        self.reset()

    def reset(self):
        self.violations = []
        self.known_hits = {}
        self.spurious = []
        self.inconclusive = {}
        self.mismatches = []
        self.validated = 0
        self.validation_concretised = 0
        self.samples = []
        self.reached = {}
        self.state_changes = 0

    def note_inconclusive(self, why):
        why = why[:160]
        self.inconclusive[why] = self.inconclusive.get(why, 0) + 1

    def inputs(self, path, model):
        return {k: enc(V.model_value(v, model)) for k, v in path.inputs.items()}

    def task(self, inputs, obs=False):
        return {"module": self.modname, "func": self.funcname, "params": self.params, "inputs": inputs, "obs": obs}

    def counterexample(self, path, model, label, info, exc=None):
        inputs = self.inputs(path, model)
        res = self.native.run(self.task(inputs, True))
        self.report(inputs, res, label, symbolic=True)

    def report(self, inputs, res, label, symbolic):
        if res is None or "viol" not in res:
            self.note_inconclusive("native replay gave no answer")
            return False
        labels = [v["label"] for v in res["viol"]]
        if not labels:
            if len(self.spurious) < 5:
                self.spurious.append({"label": label, "inputs": inputs, "params": self.params, "func": self.funcname})
            self.note_inconclusive("counterexample not reproduced natively: " + label)
            return False
        v = res["viol"][0] if label not in labels else res["viol"][labels.index(label)]
        rec = {
            "label": v["label"], "detail": v.get("detail", ""), "inputs": inputs,
            "module": self.modname, "func": self.funcname, "params": self.params,
            "predicted": symbolic,
        }
        for k in self.known:
            if k["match"](rec):
                self.known_hits[k["id"]] = self.known_hits.get(k["id"], 0) + 1
                return True
        # the long-lived replay process may carry state of earlier replays: confirm in a fresh one
        fresh = Native()
        try:
            res2 = fresh.run(self.task(inputs, True))
        finally:
            fresh.close()
        if not res2 or not res2.get("viol"):
            self.note_inconclusive("violation not reproduced in a fresh process: " + rec["label"])
            return False
        rec["label"], rec["detail"] = res2["viol"][0]["label"], res2["viol"][0].get("detail", "")
        self.violations.append(rec)
        return True

    def run_path(self, path):
        st = ENGINE.stats
        if self.state:
            self.state_changes += self.state.restore()
        inp, chk = SymInp(path), Chk(self, path)
        rt.SET_ORDER[0] = False
        concrete_exc = None
        try:
            try:
                self.func(inp, chk, **self.params)
            except Exception as e:  # the code under test (or the engine) raised
                concrete_exc = e
                self.on_exception(path, e)
                return
            except RecursionError:
                self.note_inconclusive("recursion limit of the symbolic executor")
                return
            st.paths += 1
            self.finish(path)
        except Infeasible:
            st.infeasible += 1
        except Stop:
            st.paths += 1
        except Unsupported as e:
            st.unsupported += 1
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{f.filename.rsplit('/',1)[-1]}:{f.lineno}" for f in reversed(tb) if "/sx/" not in f.filename), "?")
            self.note_inconclusive(f"unsupported: {e} at {where}")
            self.concrete_fallback(path)

    def concrete_fallback(self, path):
        """The path left the encoding: run the real code on one model of the prefix."""
        try:
            if path.check() is not True:
                return
            inputs = self.inputs(path, path.model)
        except Control:
            return
        except Exception:
            return
        res = self.native.run(self.task(inputs))
        if res and res.get("viol"):
            self.report(inputs, res, res["viol"][0]["label"], symbolic=False)

    def on_exception(self, path, e):
        try:
            if path.check() is not True:
                raise Infeasible()
            inputs = self.inputs(path, path.model)
        except Unsupported:
            self.note_inconclusive("model of raising path")
            return
        except Infeasible:
            ENGINE.stats.infeasible += 1
            return
        ENGINE.stats.paths += 1
        label = "raises " + type(e).__name__
        res = self.native.run(self.task(inputs, True))
        if res and not res.get("viol"):
            tb = traceback.extract_tb(e.__traceback__)[-6:]
            self.spurious.append({"label": label + ": " + str(e)[:100], "inputs": inputs, "params": self.params,
                                  "func": self.funcname, "tb": [f"{f.filename}:{f.lineno}" for f in tb]})
            del self.spurious[8:]
            self.note_inconclusive("exception not reproduced natively: " + label)
            return
        self.report(inputs, res, label, True)

    def finish(self, path):
        """End of path: occasionally replay a model natively and compare all observations."""
        n = ENGINE.stats.paths
        if n % self.validate_every != 1 and not path.concretised and n > 5:
            return
        if path.concretised and n % 5:
            return
        try:
            if path.check() is not True:
                return
            m = path.model
            inputs = self.inputs(path, m)
            want = [[k, enc(V.model_value(v, m))] for k, v in path.obs]
        except Control:
            return
        res = self.native.run(self.task(inputs, True))
        if res is None or "viol" not in res:
            self.note_inconclusive("native replay gave no answer")
            return
        if res["viol"]:
            self.report(inputs, res, res["viol"][0]["label"], symbolic=False)
            return
        self.validated += 1
        if len(self.samples) < 4:
            self.samples.append({"params": self.params, "inputs": inputs})
        if json.loads(json.dumps(want)) != res.get("obs"):
            if len(self.mismatches) < 5:
                self.mismatches.append({"inputs": inputs, "params": self.params, "func": self.funcname, "want": want, "got": res.get("obs")})
            self.note_inconclusive("observation mismatch between encoding and native run")

    def explore(self, modname, funcname, params, prefix, seconds, max_paths=None):
        self.modname, self.funcname, self.params = modname, funcname, params
        mod = importlib.import_module(modname)
        self.func = getattr(mod, funcname)
        if self.state is None:
            self.state = State()
        self.reset()
        ENGINE.stats = core.Stats()
        pending, error = [], None
        try:
            pending = ENGINE.explore(self.run_path, prefix, time.monotonic() + seconds, max_paths)
        except RuntimeError as e:
            error = str(e)
        except z3.Z3Exception as e:
            error = "z3: " + str(e)
        if error:
            self.note_inconclusive("aborted: " + error)
        return pending, error
