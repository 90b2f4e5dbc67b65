"""Regular expressions over symbolic subjects.

Patterns are parsed with CPython's own re._parser; each one-character node is evaluated by the real
re engine over all 256 code points, so character classes are exact.  A match is decided as one
formula (polynomial dynamic programming over (node, position)); positions and groups are resolved
lazily by a faithful backtracking matcher that forks on the characters it tests.
"""
import re
import re._parser as sre_parse
import re._compiler as sre_compile
import re._constants as C
from .formula import FULL, Atom, Not, And, Or
from .values import (
    ch_in, ch_pre, Ch, DCh, ch_resolve, fork, mkseq, chars_of, SymStr, SymBytes, SymByteArray,
    is_sym, seq_eq, resolve, concretise_char,
)
from .core import Unsupported, ENGINE

MAXREPEAT = C.MAXREPEAT


class CharNode:
    """A node matching exactly one character."""

    __slots__ = ("rx", "is_bytes", "_cache", "mask", "desc")
    registry = {}

    def __init__(self, rx, is_bytes, desc):
        self.rx = rx
        self.is_bytes = is_bytes
        self.desc = desc
        m = 0
        for i in range(256):
            if rx.fullmatch(bytes([i]) if is_bytes else chr(i)):
                m |= 1 << i
        self.mask = m

    def test(self, ch):
        t = type(ch)
        if t is int:
            if ch < 256:
                return bool(self.mask >> ch & 1)
            return bool(self.rx.fullmatch(chr(ch)))
        if t is Ch and ch.table is not None:
            m = ch_pre(
                ch, ("rx", id(self)),
                lambda v: (self.mask >> v & 1) if v < 256 else bool(self.rx.fullmatch(chr(v))),
            )
            d = ENGINE.path.dom.get(ch.var, FULL)
            if not d & m:
                return False
            if not d & ~m:
                return True
            return Atom(ch.var, m)
        return ch_in(ch, self.mask)


class Prog:
    """Compiled pattern: tree of tuples with integer ids."""

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.is_bytes = isinstance(pattern, bytes)
        self.parsed = sre_parse.parse(pattern, flags)
        self.flags = self.parsed.state.flags
        self.real = re.compile(pattern, flags)
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self._chars = {}
        self.nodes = []
        self.dp_ok = True
        self.root = self.seq(self.parsed, self.flags)

    def new(self, *t):
        self.nodes.append(t)
        return (len(self.nodes) - 1,) + t

    def charnode(self, item, flags):
        key = (repr(item), flags & (re.I | re.S | re.A | re.U | re.L), self.is_bytes)
        got = CharNode.registry.get(key)
        if got is None:
            st = sre_parse.State()
            st.flags = flags
            st.str = "" if not self.is_bytes else b""
            sp = sre_parse.SubPattern(st, [item])
            rx = sre_compile.compile(sp, flags & ~re.VERBOSE & ~re.DEBUG)
            # compile() of a SubPattern keeps pattern None; matching type must agree
            got = CharNode(_Typed(rx, self.is_bytes, item, flags), self.is_bytes, repr(item))
            CharNode.registry[key] = got
        return got

    def seq(self, sub, flags):
        out = []
        for op, av in sub:
            if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                out.append(self.new("ch", self.charnode((op, av), flags)))
            elif op is C.BRANCH:
                out.append(self.new("alt", [self.seq(b, flags) for b in av[1]]))
            elif op is C.SUBPATTERN:
                group, add, rem, p = av
                f2 = (flags | add) & ~rem
                out.append(self.new("grp", group, self.seq(p, f2)))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, p = av
                out.append(self.new("rep", lo, hi, self.seq(p, flags), op is C.MAX_REPEAT))
            elif op is C.AT:
                out.append(self.new("at", av, flags))
            elif op in (C.ASSERT, C.ASSERT_NOT):
                d, p = av
                width = p.getwidth() if d < 0 else None
                if d < 0 and width[0] != width[1]:
                    raise Unsupported("variable lookbehind")
                out.append(
                    self.new("look", op is C.ASSERT_NOT, d, width[0] if width else 0, self.seq(p, flags))
                )
            elif op is C.GROUPREF:
                self.dp_ok = False
                out.append(self.new("ref", av, flags))
            elif op is C.ATOMIC_GROUP:
                self.dp_ok = False
                out.append(self.new("atomic", self.seq(av, flags)))
            elif op is C.POSSESSIVE_REPEAT:
                self.dp_ok = False
                lo, hi, p = av
                out.append(
                    self.new("atomic", self.new("seq", [self.new("rep", lo, hi, self.seq(p, flags), True)]))
                )
            elif op is C.FAILURE:
                out.append(self.new("fail"))
            else:
                raise Unsupported(f"regex op {op}")
        return self.new("seq", out)


class _Typed:
    def __init__(self, rx, is_bytes, item, flags):
        self.rx = rx

    def fullmatch(self, s):
        return self.rx.fullmatch(s)


_progs = {}


def prog_for(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        key = (pattern.pattern, pattern.flags)
        flags = pattern.flags
        src = pattern.pattern
        if not isinstance(src, bytes):
            flags &= ~re.UNICODE
    else:
        src = pattern
        flags = int(flags)
        key = (src, flags, 0)
    p = _progs.get(key)
    if p is None:
        p = _progs[key] = Prog(src, int(flags))
    return p


# ----------------------------------------------------------------- decision by DP


class DP:
    def __init__(self, prog, chars):
        self.prog = prog
        self.chars = chars
        self.n = len(chars)
        self.memo = {}

    def ends(self, node, pos):
        key = (node[0], pos)
        r = self.memo.get(key)
        if r is None:
            r = self._ends(node, pos)
            self.memo[key] = r
        return r

    def _seq(self, items, pos):
        cur = {pos: True}
        for it in items:
            nxt = {}
            for p, c in cur.items():
                for e, c2 in self.ends(it, p).items():
                    cc = And(c, c2)
                    if cc is False:
                        continue
                    if e in nxt:
                        nxt[e] = Or(nxt[e], cc)
                    else:
                        nxt[e] = cc
            cur = nxt
            if not cur:
                break
        return cur

    def _ends(self, node, pos):
        kind = node[1]
        if kind == "ch":
            if pos >= self.n:
                return {}
            f = node[2].test(self.chars[pos])
            return {} if f is False else {pos + 1: f}
        if kind == "seq":
            return self._seq(node[2], pos)
        if kind == "alt":
            out = {}
            for b in node[2]:
                for e, c in self.ends(b, pos).items():
                    out[e] = Or(out[e], c) if e in out else c
            return out
        if kind == "grp":
            return self.ends(node[3], pos)
        if kind == "rep":
            lo, hi, body = node[2], node[3], node[4]
            if hi is MAXREPEAT or hi >= self.n - pos + lo + 1:
                # lo mandatory copies then a star
                cur = {pos: True}
                for _ in range(lo):
                    cur = self._step(cur, body)
                    if not cur:
                        return {}
                out = {}
                for p, c in cur.items():
                    for e, c2 in self.star(node, body, p).items():
                        cc = And(c, c2)
                        if cc is not False:
                            out[e] = Or(out[e], cc) if e in out else cc
                return out
            out = {}
            cur = {pos: True}
            for k in range(hi + 1):
                if k >= lo:
                    for e, c in cur.items():
                        out[e] = Or(out[e], c) if e in out else c
                if k == hi:
                    break
                cur = self._step(cur, body)
                if not cur:
                    break
            return out
        if kind == "at":
            f = self.at(node[2], node[3], pos)
            return {} if f is False else {pos: f}
        if kind == "look":
            neg, d, w, body = node[2], node[3], node[4], node[5]
            if d > 0:
                f = Or(*self.ends(body, pos).values())
            else:
                f = self.ends(body, pos - w).get(pos, False) if pos - w >= 0 else False
            if neg:
                f = Not(f)
            return {} if f is False else {pos: f}
        if kind == "fail":
            return {}
        raise Unsupported(kind)

    def _step(self, cur, body):
        nxt = {}
        for p, c in cur.items():
            for e, c2 in self.ends(body, p).items():
                cc = And(c, c2)
                if cc is not False:
                    nxt[e] = Or(nxt[e], cc) if e in nxt else cc
        return nxt

    def star(self, node, body, pos):
        key = (node[0], "*", pos)
        r = self.memo.get(key)
        if r is None:
            r = {pos: True}
            for e, c in sorted(self.ends(body, pos).items()):
                if e <= pos:
                    continue
                for e2, c2 in self.star(node, body, e).items():
                    cc = And(c, c2)
                    if cc is not False:
                        r[e2] = Or(r[e2], cc) if e2 in r else cc
            self.memo[key] = r
        return r

    def at(self, av, flags, pos):
        return at_formula(self.prog, self.chars, av, flags, pos)


def at_formula(prog, chars, av, flags, pos):
    n = len(chars)
    if av is C.AT_BEGINNING:
        if pos == 0:
            return True
        if flags & re.M:
            return ch_in(chars[pos - 1], 1 << 10)
        return False
    if av is C.AT_BEGINNING_STRING:
        return pos == 0
    if av is C.AT_END:
        if pos == n:
            return True
        if flags & re.M or pos == n - 1:
            return ch_in(chars[pos], 1 << 10)
        return False
    if av is C.AT_END_STRING:
        return pos == n
    if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        word = 0
        rx = re.compile(rb"\w" if prog.is_bytes else r"\w", flags & re.A)
        for i in range(256):
            if rx.match(bytes([i]) if prog.is_bytes else chr(i)):
                word |= 1 << i
        a = ch_in(chars[pos - 1], word) if pos > 0 else False
        b = ch_in(chars[pos], word) if pos < n else False
        x = Or(And(a, Not(b)), And(Not(a), b))
        return x if av is C.AT_BOUNDARY else Not(x)
    raise Unsupported(f"regex at {av}")


# ----------------------------------------------------------------- forking backtracking matcher


def bt(prog, chars, node, pos, caps):
    """Yield (end, caps) in priority order; forks on the characters tested."""
    kind = node[1]
    n = len(chars)
    if kind == "ch":
        if pos < n and fork(node[2].test(chars[pos])):
            yield pos + 1, caps
    elif kind == "seq":
        yield from _bt_seq(prog, chars, node[2], 0, pos, caps)
    elif kind == "alt":
        for b in node[2]:
            yield from bt(prog, chars, b, pos, caps)
    elif kind == "grp":
        g = node[2]
        for e, c in bt(prog, chars, node[3], pos, caps):
            if g is not None:
                c = dict(c)
                c[g] = (pos, e)
                c["last"] = g
            yield e, c
    elif kind == "rep":
        yield from _bt_rep(prog, chars, node, 0, pos, caps)
    elif kind == "at":
        if fork(at_formula(prog, chars, node[2], node[3], pos)):
            yield pos, caps
    elif kind == "look":
        neg, d, w, body = node[2], node[3], node[4], node[5]
        found = None
        if d > 0:
            for e, c in bt(prog, chars, body, pos, caps):
                found = c
                break
        elif pos - w >= 0:
            for e, c in bt(prog, chars, body, pos - w, caps):
                if e == pos:
                    found = c
                    break
        if neg:
            if found is None:
                yield pos, caps
        elif found is not None:
            yield pos, found
    elif kind == "ref":
        span = caps.get(node[2])
        if span is None:
            return
        s = chars[span[0] : span[1]]
        if node[3] & re.I:
            raise Unsupported("case-insensitive backreference")
        if pos + len(s) <= n and fork(seq_eq(chars[pos : pos + len(s)], s)):
            yield pos + len(s), caps
    elif kind == "atomic":
        for e, c in bt(prog, chars, node[2], pos, caps):
            yield e, c
            return
    elif kind == "fail":
        return
    else:
        raise Unsupported(kind)


def _bt_seq(prog, chars, items, i, pos, caps):
    if i == len(items):
        yield pos, caps
        return
    for e, c in bt(prog, chars, items[i], pos, caps):
        yield from _bt_seq(prog, chars, items, i + 1, e, c)


def _bt_rep(prog, chars, node, count, pos, caps):
    lo, hi, body, greedy = node[2], node[3], node[4], node[5]
    if count < lo:
        for e, c in bt(prog, chars, body, pos, caps):
            yield from _bt_rep(prog, chars, node, count + 1, e, c)
        return
    if greedy:
        if hi is MAXREPEAT or count < hi:
            for e, c in bt(prog, chars, body, pos, caps):
                if e == pos:
                    continue
                yield from _bt_rep(prog, chars, node, count + 1, e, c)
        yield pos, caps
    else:
        yield pos, caps
        if hi is MAXREPEAT or count < hi:
            for e, c in bt(prog, chars, body, pos, caps):
                if e == pos:
                    continue
                yield from _bt_rep(prog, chars, node, count + 1, e, c)


# ----------------------------------------------------------------- match objects


class SymMatch:
    __sx_sym__ = False

    def __init__(self, prog, subject, chars, offset_end, mode, start, resolved=None):
        self.prog = prog
        self.string = subject
        self.chars = chars  # truncated at endpos
        self.mode = mode  # 'match' | 'fullmatch' | 'search'
        self.start0 = start
        self._r = resolved
        self.re = prog.real

    @property
    def __class__(self):
        return re.Match

    def __bool__(self):
        return True

    def _resolve(self):
        if self._r is None:
            self._r = run_bt(self.prog, self.chars, self.mode, self.start0)
            if self._r is None:
                raise Unsupported("regex DP and backtracking disagree")
        return self._r

    def _g(self, g):
        s, e, caps = self._resolve()
        if isinstance(g, str):
            g = self.prog.groupindex[g]
        g = int(g)
        if g == 0:
            return (s, e)
        if g > self.prog.groups:
            raise IndexError("no such group")
        return caps.get(g, (-1, -1))

    def _text(self, span, default=None):
        if span[0] < 0:
            return default
        return mkseq(self.chars[span[0] : span[1]], not self.prog.is_bytes)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._text(self._g(g)) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._text(self._g(i), default) for i in range(1, self.prog.groups + 1))

    def groupdict(self, default=None):
        return {k: self._text(self._g(v), default) for k, v in self.prog.groupindex.items()}

    def start(self, g=0):
        return self._g(g)[0]

    def end(self, g=0):
        return self._g(g)[1]

    def span(self, g=0):
        return self._g(g)

    @property
    def lastindex(self):
        return self._resolve()[2].get("last")

    @property
    def lastgroup(self):
        li = self.lastindex
        for k, v in self.prog.groupindex.items():
            if v == li:
                return k
        return None

    def expand(self, template):
        return expand(self.prog, template, self)


def run_bt(prog, chars, mode, start, must_advance=False):
    n = len(chars)
    if mode == "search":
        starts = range(start, n + 1)
    else:
        starts = (start,)
    for s in starts:
        for e, caps in bt(prog, chars, prog.root, s, {}):
            if mode == "fullmatch" and e != n:
                continue
            if must_advance and s == start and e == s:
                continue
            return (s, e, caps)
    return None


def decide(prog, chars, mode, start):
    """Formula for "there is a match"."""
    dp = DP(prog, chars)
    n = len(chars)
    if mode == "match":
        return Or(*dp.ends(prog.root, start).values())
    if mode == "fullmatch":
        return dp.ends(prog.root, start).get(n, False)
    return Or(*[Or(*dp.ends(prog.root, s).values()) for s in range(start, n + 1)])


def _subject(prog, s):
    if prog.is_bytes and isinstance(s, str):
        raise TypeError("cannot use a bytes pattern on a string-like object")
    if not prog.is_bytes and not isinstance(s, str):
        raise TypeError("cannot use a string pattern on a bytes-like object")
    return [ch_resolve(c) for c in chars_of(s)]


def do_match(pattern, flags, s, mode, pos=0, endpos=None):
    prog = prog_for(pattern, flags)
    chars = _subject(prog, s)
    pos = max(0, min(int(pos), len(chars)))
    if endpos is not None:
        chars = chars[: max(0, min(int(endpos), len(chars)))]
    if prog.dp_ok:
        if not fork(decide(prog, chars, mode, pos)):
            return None
        return SymMatch(prog, s, chars, None, mode, pos)
    r = run_bt(prog, chars, mode, pos)
    if r is None:
        return None
    return SymMatch(prog, s, chars, None, mode, pos, r)


def iter_matches(prog, s, chars):
    pos, must = 0, False
    while True:
        r = run_bt(prog, chars, "search", pos, must)
        if r is None:
            return
        yield SymMatch(prog, s, chars, None, "search", pos, r)
        must = r[1] == r[0]
        pos = r[1]


def do_findall(pattern, flags, s):
    prog = prog_for(pattern, flags)
    chars = _subject(prog, s)
    empty = b"" if prog.is_bytes else ""
    out = []
    for m in iter_matches(prog, s, chars):
        if prog.groups == 0:
            out.append(m.group(0))
        elif prog.groups == 1:
            g = m.group(1)
            out.append(empty if g is None else g)
        else:
            out.append(m.groups(empty))
    return out


def do_finditer(pattern, flags, s):
    prog = prog_for(pattern, flags)
    chars = _subject(prog, s)
    return iter_matches(prog, s, chars)


def do_split(pattern, flags, s, maxsplit=0):
    prog = prog_for(pattern, flags)
    chars = _subject(prog, s)
    out, last, n = [], 0, 0
    for m in iter_matches(prog, s, chars):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(mkseq(chars[last:a], not prog.is_bytes))
        out.extend(m.groups())
        last = b
        n += 1
    out.append(mkseq(chars[last:], not prog.is_bytes))
    return out


def expand(prog, template, m):
    parts = sre_parse.parse_template(template, prog.real)
    out = []
    for p in parts:
        if isinstance(p, int):
            g = m.group(p)
            if g is not None:
                out.extend(chars_of(g))
        else:
            out.extend(chars_of(p))
    return mkseq(out, not prog.is_bytes)


def do_sub(pattern, flags, repl, s, count=0, want_n=False):
    prog = prog_for(pattern, flags)
    chars = _subject(prog, s)
    out, last, n = [], 0, 0
    for m in iter_matches(prog, s, chars):
        if count and n >= count:
            break
        a, b = m.span()
        out.extend(chars[last:a])
        if callable(repl):
            r = repl(m)
        elif is_sym(repl):
            raise Unsupported("symbolic replacement template")
        else:
            r = expand(prog, repl, m)
        out.extend(chars_of(r))
        last = b
        n += 1
    out.extend(chars[last:])
    r = mkseq(out, not prog.is_bytes)
    return (r, n) if want_n else r
