"""Exponential ambiguity of the regular expressions the code uses, decided by an SMT solver.

A backtracking matcher takes exponential time on a regular expression exactly when some position q of it can be reached from itself over
one and the same word in two different ways (and what follows can fail). For every regular expression, and every strongly connected
component of its position automaton, the query is: is there a word w_1..w_n (symbolic bytes), and two different sequences of transitions
from a position q (symbolic) back to q, both reading w? `unsat` decides it for all words and positions of that component.
"""
import json
import os
import re
import subprocess
import time
import warnings

import z3

warnings.filterwarnings("ignore", category=DeprecationWarning)
import re._constants as C
import re._parser as P

ALL = (1 << 256) - 1
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ pattern -> automaton
def category(cat):
    m = 0
    for i in range(256):
        c = chr(i)
        ok = {C.CATEGORY_DIGIT: c.isdigit(), C.CATEGORY_SPACE: c.isspace(), C.CATEGORY_WORD: c.isalnum() or c == "_"}
        neg = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
        v = ok[cat] if cat in ok else not ok[neg[cat]]
        if v:
            m |= 1 << i
    return m


def fold(m, flags):
    if not flags & re.IGNORECASE:
        return m
    out = m
    for i in range(256):
        if m >> i & 1:
            for c in (chr(i).lower(), chr(i).upper()):
                if len(c) == 1 and ord(c) < 256:
                    out |= 1 << ord(c)
    return out


def charset(op, av, flags):
    """Mask of the byte values a single-character node matches, or None."""
    if op is C.LITERAL:
        return fold(1 << av, flags) if av < 256 else 0
    if op is C.NOT_LITERAL:
        return ALL & ~fold(1 << av, flags)
    if op is C.ANY:
        return ALL if flags & re.DOTALL else ALL & ~(1 << 10)
    if op is C.IN:
        m, neg = 0, False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                m |= 1 << a if a < 256 else 0
            elif o is C.RANGE:
                for i in range(a[0], min(a[1], 255) + 1):
                    m |= 1 << i
            elif o is C.CATEGORY:
                m |= category(a)
        m = fold(m, flags)
        return ALL & ~m if neg else m
    return None


class Auto:
    """Thompson automaton: node = ('c', mask, next) | ('s', [nexts]) | ('l', mask, next): next character must be in mask (or the end)."""

    def __init__(self):
        self.nodes = []
        self.groups = {}

    def new(self, n):
        self.nodes.append(n)
        if len(self.nodes) > 60000:
            raise TooBig()
        return len(self.nodes) - 1

    def seq(self, items, nxt, flags):
        for op, av in reversed(list(items)):
            nxt = self.item(op, av, nxt, flags)
        return nxt

    def item(self, op, av, nxt, flags):
        m = charset(op, av, flags)
        if m is not None:
            return self.new(("c", m, nxt))
        if op is C.SUBPATTERN:
            g, add, rem, p = av
            return self.seq(p, nxt, (flags | add) & ~rem)
        if op is C.BRANCH:
            return self.new(("s", [self.seq(p, nxt, flags) for p in av[1]]))
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) or op is getattr(C, "POSSESSIVE_REPEAT", None):
            lo, hi, p = av
            if hi == C.MAXREPEAT:
                loop = self.new(None)
                body = self.seq(p, loop, flags)
                self.nodes[loop] = ("s", [body, nxt])
                entry = loop
            else:
                entry = nxt
                for _ in range(hi - lo):
                    entry = self.new(("s", [self.seq(p, entry, flags), nxt]))
            for _ in range(lo):
                entry = self.seq(p, entry, flags)
            return entry
        if op is C.AT:
            return nxt
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d == 1 and len(p) == 1:
                m = charset(p[0][0], p[0][1], flags)
                if m is not None:
                    return self.new(("l", m if op is C.ASSERT else ALL & ~m, nxt))
            return nxt
        if op is getattr(C, "ATOMIC_GROUP", None):
            return self.seq(av, nxt, flags)
        raise TooBig()  # back-references and the like


def automaton(pattern, flags, is_bytes):
    p = P.parse(pattern.encode("latin-1") if is_bytes else pattern, flags)
    a = Auto()
    accept = a.new(("a",))
    start = a.seq(p, accept, p.state.flags)
    return a, start, accept


def steps(a, node):
    """[(mask, character node), ...]: each distinct way to reach a character node from `node` without consuming anything (at most two each)."""
    out, seen = [], {}

    def go(n, mask, stack):
        k = seen.get((n, mask), 0)
        if k >= 2 or n in stack:
            return
        seen[(n, mask)] = k + 1
        t = a.nodes[n]
        if t[0] == "c":
            if mask & t[1]:
                out.append((mask & t[1], n))
        elif t[0] == "s":
            for x in t[1]:
                go(x, mask, stack | {n})
        elif t[0] == "l":
            go(t[2], mask & t[1], stack | {n})

    go(node, ALL, frozenset())
    return out


def transitions(a, start):
    """Reachable character nodes and the transitions between them."""
    trans, todo, first = {}, [], steps(a, start)
    for m, n in first:
        todo.append(n)
    cache = {}
    while todo:
        n = todo.pop()
        if n in trans:
            continue
        nxt = a.nodes[n][2]
        if nxt not in cache:
            cache[nxt] = steps(a, nxt)
        trans[n] = cache[nxt]
        todo.extend(q for _, q in trans[n] if q not in trans)
    return first, trans


def components(trans):
    """Strongly connected components that contain a cycle (iterative Tarjan)."""
    index, low, on, st, out, c = {}, {}, set(), [], [], 0
    for root in trans:
        if root in index:
            continue
        work = [(root, iter(trans[root]))]
        index[root] = low[root] = c
        c += 1
        st.append(root)
        on.add(root)
        while work:
            n, it = work[-1]
            for _, q in it:
                if q not in index:
                    index[q] = low[q] = c
                    c += 1
                    st.append(q)
                    on.add(q)
                    work.append((q, iter(trans[q])))
                    break
                if q in on:
                    low[n] = min(low[n], index[q])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == index[n]:
                    comp = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        comp.append(x)
                        if x == n:
                            break
                    if len(comp) > 1 or any(q == n for _, q in trans[n]):
                        out.append(sorted(comp))
    return out


# ------------------------------------------------------------------ the query
def classes(masks):
    """Partition of the byte values that the masks distinguish."""
    parts = [ALL]
    for m in set(masks):
        new = []
        for p in parts:
            for q in (p & m, p & ~m & ALL):
                if q:
                    new.append(q)
        parts = new
    return parts


def problem(comp, trans):
    """The component with positions renumbered: {(i, j): [masks]}; parallel masks are different ways."""
    pos = {n: i for i, n in enumerate(comp)}
    arcs = {}
    for n in comp:
        for m, q in trans[n]:
            if q in pos:
                arcs.setdefault((pos[n], pos[q]), []).append(m)
    return len(comp), tuple(sorted((k, tuple(sorted(v))) for k, v in arcs.items()))


def solve(shape, length, timeout):
    """A word of at most `length` bytes that leads from a position to itself in two ways: (position, [masks]), None, or 'unknown'."""
    size, arcs = shape
    stats = {"queries": 0, "solver_s": 0.0, "unknown": 0}
    parts = classes([m for _, ms in arcs for m in ms])

    def letters(mask):
        return [j for j, p in enumerate(parts) if p & mask]

    succ = [[] for _ in range(size)]
    both = []  # (i, j, letters): two ways at once
    for (i, j), ms in arcs:
        u = 0
        for m in ms:
            u |= m
        succ[i].append((j, letters(u)))
        dup = 0
        for x in range(len(ms)):
            for y in range(x):
                dup |= ms[x] & ms[y]
        if dup:
            both.append((i, j, letters(dup)))
    for k in range(1, length + 1):
        s = z3.SolverFor("QF_FD")
        s.set("timeout", int(timeout * 1000))
        c = [[z3.Bool(f"c{t}.{j}") for j in range(len(parts))] for t in range(k)]
        st = {w: [[z3.Bool(f"{w}{t}.{i}") for i in range(size)] for t in range(k)] for w in "ab"}
        st["b"][0] = st["a"][0]
        for rows in (c, st["a"], st["b"]):
            for row in rows:
                s.add(z3.PbEq([(b, 1) for b in row], 1))
        for w in "ab":
            for t in range(k):
                nxt = st[w][t + 1] if t + 1 < k else st[w][0]
                for i in range(size):
                    s.add(z3.Implies(st[w][t][i], z3.Or([nxt[j] for j, _ in succ[i]])))
                    for j, ls in succ[i]:
                        if len(ls) < len(parts):
                            s.add(z3.Or([z3.Not(st[w][t][i]), z3.Not(nxt[j])] + [c[t][l] for l in ls]))
        differ = []
        for t in range(k):
            if t:
                differ += [z3.And(x, z3.Not(y)) for x, y in zip(st["a"][t], st["b"][t])]
            for i, j, ls in both:
                an, bn = (st["a"][t + 1], st["b"][t + 1]) if t + 1 < k else (st["a"][0], st["b"][0])
                differ.append(z3.And(st["a"][t][i], st["b"][t][i], an[j], bn[j], z3.Or([c[t][l] for l in ls])))
        s.add(z3.Or(differ))
        t0 = time.monotonic()
        r = s.check()
        stats["solver_s"] += time.monotonic() - t0
        stats["queries"] += 1
        if r == z3.unknown:
            stats["unknown"] += 1
            return "unknown", stats
        if r == z3.sat:
            m = s.model()
            q = [i for i in range(size) if m.eval(st["a"][0][i])][0]
            word = [parts[[j for j in range(len(parts)) if m.eval(row[j])][0]] for row in c]
            return (q, word), stats
    return None, stats


def pick(mask):
    for c in b"abcdefghijklmnopqrstuvwxyz0123456789ABC;,= \t":
        if mask >> c & 1:
            return bytes([c])
    return bytes([(mask & -mask).bit_length() - 1])


def prefix_to(first, trans, goal):
    """A shortest text that leads to having consumed position `goal`."""
    seen = {}
    todo = []
    for m, n in first:
        if n not in seen:
            seen[n] = pick(m)
            todo.append(n)
    while todo:
        n = todo.pop(0)
        if n == goal:
            return seen[n]
        for m, q in trans[n]:
            if q not in seen:
                seen[q] = seen[n] + pick(m)
                todo.append(q)
    return b""


def native(args, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    try:
        r = subprocess.run([PY, os.path.join(HERE, "redos_native.py")] + args, capture_output=True, timeout=timeout, env=env, cwd="/")
    except subprocess.TimeoutExpired:
        return None
    return r


LIMIT = 4.0  # seconds of CPU time for a value of at most MAXLEN bytes
MAXLEN = 400


def attack(kind, name, value):
    r = native(["time", kind, name, value.hex()], 40)
    if r is None or r.returncode < 0:
        return 20.0
    try:
        return float(r.stdout)
    except ValueError:
        return 0.0


SUFFIXES = [b"", b"\x01", b'"', b"@", b"!x", b"\\", b" (", b";;=", b"]", b"\x80\x00"]


def confirm(where, prefix, word):
    """Search for a short value, built from the solver's word, that really takes long."""
    for suffix in SUFFIXES:
        for kind, name in where[:6]:
            for n in (22, 30, 44):
                value = prefix + word * n + suffix
                if len(value) > MAXLEN:
                    break
                t = attack(kind, name, value)
                if t > LIMIT:
                    return kind, name, value, t
                if n == 22 and t < 0.02:
                    break
    return None


def analyse(args):
    """The components of one pattern: [(shape, [prefix to each position])], or an explanation."""
    pattern, flags, is_bytes = args
    try:
        a, start, accept = automaton(pattern, flags, is_bytes)
        first, trans = transitions(a, start)
    except TooBig:
        return None, 0
    out = []
    for comp in components(trans):
        out.append((problem(comp, trans), [prefix_to(first, trans, n) for n in comp]))
    return out, len(trans)


def capture():
    r = native(["capture"], 300)
    if r is None or r.returncode:
        raise RuntimeError("capture failed: " + (r.stderr.decode()[-500:] if r else "timeout"))
    return json.loads(r.stdout)
