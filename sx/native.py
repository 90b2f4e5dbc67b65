"""Native replay worker: runs harness functions with concrete inputs on the unmodified code."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("SX_REPO", "/repo"))


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).decode("latin-1")}
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return x
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {"$d": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {"$s": sorted((enc(i) for i in x), key=repr)}
    return {"$r": type(x).__name__}


def dec(x):
    if isinstance(x, dict):
        if "$b" in x:
            return x["$b"].encode("latin-1")
        if "$d" in x:
            return {dec(k): dec(v) for k, v in x["$d"]}
        raise ValueError(x)
    if isinstance(x, list):
        return [dec(i) for i in x]
    return x


class StopRun(BaseException):
    pass


class RepInp:
    native = True

    def __init__(self, inputs):
        self.inputs = {k: dec(v) for k, v in inputs.items()}

    # inputs the symbolic path did not get to take a default value

    def bytes(self, name, n, alphabet=None):
        if name in self.inputs:
            return self.inputs[name]
        return bytes([(alphabet or b"a")[0]]) * n

    def text(self, name, n, alphabet=None):
        if name in self.inputs:
            return self.inputs[name]
        return (alphabet or "a")[0] * n

    def int(self, name, lo, hi):
        return self.inputs.get(name, lo)

    def bool(self, name):
        return self.inputs.get(name, False)

    def choice(self, name, options):
        options = list(options)
        if not options:
            raise StopRun()
        return options[self.inputs.get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise StopRun()

    def fixed(self, name, v):
        return v


class RepChk:
    native = True

    def __init__(self):
        self.viol = []
        self.observed = []

    def __call__(self, cond, label, **info):
        if not cond:
            detail = "; ".join(f"{k}={v!r}" for k, v in info.items())
            self.viol.append({"label": label, "detail": detail[:2000]})
            raise StopRun()

    def eq(self, a, b, label, **info):
        self(a == b, label, got=a, want=b, **info)

    def obs(self, name, value):
        self.observed.append((name, value))

    def reach(self, name):
        pass


def run(task):
    mod = importlib.import_module(task["module"])
    func = getattr(mod, task["func"])
    inp, chk = RepInp(task["inputs"]), RepChk()
    try:
        func(inp, chk, **task["params"])
    except StopRun:
        pass
    except Exception as e:  # noqa
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-4:]))
        chk.viol.append({"label": "raises " + type(e).__name__, "detail": f"{type(e).__name__}: {e} [{where}]"[:2000]})
    return {"viol": chk.viol, "obs": [[k, enc(v)] for k, v in chk.observed]}


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        task = json.loads(line)
        try:
            res = run(task)
        except BaseException as e:  # noqa
            res = {"error": repr(e)}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
