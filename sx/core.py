"""Path context and depth-first exploration by re-execution.

The code under test runs as ordinary Python on symbolic values (values.py).  Every decision that
depends on a symbolic value goes through Path.fork(); the explorer re-executes the harness once per
feasible decision sequence.  Feasibility is decided by exact domain propagation for independent
byte variables and by z3 for everything else; every assertion is discharged by z3.
"""
import time
import z3
from .formula import FULL, F, Atom, Nary, Z, Var, Not, And, Or, simplify, fvars, to_z3


class Control(BaseException):
    """Engine control flow; never caught by the code under test (BaseException)."""


class Infeasible(Control):
    pass


class Unsupported(Control):
    pass


class Stop(Control):
    """Stop this path (after a reported counterexample)."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0  # symbolic branch decisions taken (new, not replayed)
        self.domain_decided = 0
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.asserts = 0
        self.assert_trivial = 0
        self.concretised = 0
        self.unsupported = 0
        self.reached = 0

    def merge(self, other):
        for k, v in (other if isinstance(other, dict) else other.__dict__).items():
            setattr(self, k, getattr(self, k, 0) + v)

    def as_dict(self):
        return dict(self.__dict__)


class SolverStack:
    """A z3 solver kept in step with the decision stack across re-executions."""

    def __init__(self, timeout_ms=20000):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout_ms)
        self.frames = [[]]
        self.pushed = 0  # number of frames present in the solver

    def restart(self, keep):
        """Keep the first `keep` frames (frame 0 is before any decision)."""
        if keep < len(self.frames):
            if self.pushed > keep:
                self.solver.pop(self.pushed - keep)
                self.pushed = keep
            del self.frames[keep:]
        if not self.frames:
            self.frames.append([])

    def new_frame(self):
        self.frames.append([])

    def add(self, f):
        self.frames[-1].append(f)
        if self.pushed == len(self.frames):
            self.solver.add(to_z3(f))

    def sync(self):
        while self.pushed < len(self.frames):
            self.solver.push()
            for f in self.frames[self.pushed]:
                self.solver.add(to_z3(f))
            self.pushed += 1


class Path:
    def __init__(self, engine, decisions, keep_frames):
        self.e = engine
        self.decisions = decisions  # list of [value, alternatives]
        self.pos = 0
        self.keep = keep_frames  # frames < keep are already recorded in the solver stack
        self.dom = {}
        self.entangled = set()
        self.inputs = {}  # name -> symbolic value
        self.varcount = 0
        self.obs = []
        self.concretised = False
        self.model = None
        self.data = {}
        self.fresh = 0
        self.trace = []

    # -- constraints
    def level(self):
        return self.pos

    def _narrow(self, f):
        if isinstance(f, Atom):
            d = self.dom.get(f.var, FULL) & f.mask
            self.dom[f.var] = d
            if not d:
                raise Infeasible()
        elif isinstance(f, Nary):
            if f.op == "and":
                for a in f.args:
                    self._narrow(a)
            else:
                fvars(f, self.entangled)
        else:
            self.entangled.update(f.vars)

    def _record(self, f):
        if self.pos >= self.keep:
            self.e.st.add(f)
        self._narrow(f)

    def _decided(self, value, alts):
        """Append or consume a decision slot."""
        self.pos += 1
        if self.pos >= self.keep:
            self.e.st.new_frame()

    def check(self, f=None):
        """z3 satisfiability of the path condition (and f). True/False/None (unknown)."""
        st = self.e.st
        st.sync()
        s = st.solver
        t0 = time.perf_counter()
        if f is not None:
            s.push()
            s.add(to_z3(f))
        r = s.check()
        self.model = None
        if r == z3.sat:
            self.model = s.model()
        if f is not None:
            s.pop()
        self.e.stats.solver_s += time.perf_counter() - t0
        self.e.stats.queries += 1
        if r == z3.unknown:
            self.e.stats.unknown += 1
            return None
        return r == z3.sat

    def fork(self, f):
        if f is True or f is False:
            return f
        f = simplify(f, self.dom)
        if f is True or f is False:
            return f
        if self.pos < len(self.decisions):
            val = self.decisions[self.pos][0]
            forced = self.decisions[self.pos][1] is None
            self._decided(val, None)
            g = f if val else Not(f)
            if forced:
                try:
                    self._narrow_only_atoms(g)
                except Infeasible:
                    raise
            else:
                self._record(g)
            return val
        # new decision
        self.e.stats.decisions += 1
        if isinstance(f, Atom) and f.var not in self.entangled:
            self.e.stats.domain_decided += 1
            can_t = can_f = True
        else:
            can_t = self.check(f) is not False
            can_f = True if not can_t else self.check(Not(f)) is not False
        if can_t and can_f:
            order = [True, False]
            self.decisions.append([order[0], order[1:]])
            val = order[0]
            self._decided(val, None)
            self._record(f if val else Not(f))
            return val
        val = can_t
        self.decisions.append([val, None])
        self._decided(val, None)
        self._narrow_only_atoms(f if val else Not(f))
        return val

    def _narrow_only_atoms(self, f):
        # implied by the path condition: only the domains need updating
        if isinstance(f, Atom):
            d = self.dom.get(f.var, FULL) & f.mask
            self.dom[f.var] = d
            if not d:
                raise Infeasible()
        elif isinstance(f, Nary) and f.op == "and":
            for a in f.args:
                self._narrow_only_atoms(a)

    def choose(self, n):
        """Nondeterministic choice (no constraint)."""
        if n <= 1:
            return 0
        if self.pos < len(self.decisions):
            val = self.decisions[self.pos][0]
            self._decided(val, None)
            return val
        self.decisions.append([0, list(range(1, n))])
        self.e.stats.decisions += 1
        self._decided(0, None)
        return 0

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        f = simplify(f, self.dom)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        if isinstance(f, Atom) and f.var not in self.entangled:
            self._record(f)
            return
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self._decided(d[0], None)
            if not d[0]:
                raise Infeasible()
            self._record(f)
            return
        ok = self.check(f) is not False
        self.decisions.append([ok, None])
        self._decided(ok, None)
        if not ok:
            raise Infeasible()
        self._record(f)

    def assume_cheap(self, f):
        """Record a constraint known to be satisfiable with the path condition (fresh variables)."""
        self._record(f)

    def get_model(self):
        r = self.check()
        if r is None:
            raise Unsupported("solver unknown on path condition")
        if not r:
            raise Infeasible()
        return self.model

    def var(self, name, mask=FULL):
        v = self.e.get_var(name)
        if mask != FULL:
            self._record(Atom(v, mask))
        return v

    def val_of_var(self, v, model):
        if model is not None:
            got = model.eval(v.z)
            if z3.is_bv_value(got):
                return got.as_long()
        d = self.dom.get(v, FULL)
        # a readable representative
        for c in b"a0A -":
            if d >> c & 1:
                return c
        return (d & -d).bit_length() - 1


class Engine:
    def __init__(self):
        self.st = SolverStack()
        self.stats = Stats()
        self.vars = {}
        self.path = None
        self.solver_resets = 0

    def get_var(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = Var(name, len(self.vars))
        return v

    def reset_solver(self):
        self.st = SolverStack()

    def explore(self, run, prefix, deadline, max_paths=None):
        """Run `run(path)` for every feasible decision sequence extending `prefix`.

        Returns the list of unexplored prefixes (when the deadline or max_paths is hit)."""
        self.reset_solver()
        decisions = [[v, [] if not forced else None] for v, forced in prefix]
        base = len(decisions)
        keep = 0
        n = 0
        while True:
            path = Path(self, decisions, keep)
            self.st.restart(keep)
            self.path = path
            try:
                run(path)
            finally:
                self.path = None
            n += 1
            # drop decisions not consumed (cannot happen in deterministic code)
            if path.pos < len(decisions):
                raise RuntimeError(
                    f"nondeterministic harness: consumed {path.pos} of {len(decisions)} decisions"
                )
            while len(decisions) > base and not decisions[-1][1]:
                decisions.pop()
            if len(decisions) <= base:
                return []
            d = decisions[-1]
            d[0] = d[1].pop(0)
            keep = len(decisions)  # frames 0..len-1 are shared
            if time.monotonic() > deadline or (max_paths and n >= max_paths):
                pending = []
                vals = [(x[0], x[1] is None) for x in decisions]
                pending.append(vals[:])
                for i in range(len(decisions) - 1, base - 1, -1):
                    for alt in decisions[i][1] or []:
                        pending.append(vals[:i] + [(alt, False)])
                return pending


ENGINE = Engine()


def cur():
    return ENGINE.path
