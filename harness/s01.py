"""S01: a finished linter, and its notes, can be pickled, and the copy says the same."""
import copyreg
import pickle
import sys
import types
import weakref
from enum import Enum
from functools import partial

from harness import lib, seeds
from harness.d01 import COMMON, PAIRED, report
from harness.m06 import BODIES, lint

SCALARS = (str, bytes, int, float, complex, bool)


class Unpicklable(Exception):
    pass


def named(v):
    """Classes and functions are pickled by their names."""
    found = sys.modules.get(v.__module__)
    for part in v.__qualname__.split("."):
        found = getattr(found, part, None)
    if found is not v:
        raise Unpicklable(v.__module__ + "." + v.__qualname__)
    return v


def copied(v, memo):
    """What pickling and unpickling a value gives (values in it that are the executor's symbols stay what they are)."""
    if v is None or v is Ellipsis or v is NotImplemented or isinstance(v, SCALARS):
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType)):
        return named(v)
    if isinstance(v, Enum):
        named(type(v))
        return v
    if isinstance(v, types.MethodType):
        return getattr(copied(v.__self__, memo), v.__func__.__name__)
    if type(v) in (weakref.ReferenceType, types.GeneratorType, types.ModuleType, types.FrameType):
        raise Unpicklable(type(v).__name__)
    if type(v) is dict:
        out = {}
        memo[id(v)] = (v, out)
        for k, x in v.items():
            out[copied(k, memo)] = copied(x, memo)
        return out
    if type(v) is list:
        out = []
        memo[id(v)] = (v, out)
        for x in v:
            out.append(copied(x, memo))
        return out
    if type(v) is tuple:
        return tuple([copied(x, memo) for x in v])
    if type(v) in (set, frozenset):
        return type(v)([copied(x, memo) for x in v])
    if type(v) is partial:
        return partial(copied(v.func, memo), *copied(v.args, memo), **copied(v.keywords, memo))
    try:
        how = v.__reduce_ex__(4)
    except TypeError as why:
        raise Unpicklable(str(why))
    if isinstance(how, str):
        return v  # a global
    make, args = how[0], how[1]
    state = how[2] if len(how) > 2 else None
    out = make(*[copied(x, memo) for x in args])
    memo[id(v)] = (v, out)
    if len(how) > 3 and how[3] is not None:
        for x in how[3]:
            out.append(copied(x, memo))
    if len(how) > 4 and how[4] is not None:
        for k, x in how[4]:
            out[copied(k, memo)] = copied(x, memo)
    if state is not None:
        state = copied(state, memo)
        if hasattr(out, "__setstate__"):
            out.__setstate__(state)
        else:
            slots = None
            if isinstance(state, tuple) and len(state) == 2:
                state, slots = state
            if state:
                out.__dict__.update(state)
            for k, x in (slots or {}).items():
                setattr(out, k, x)
    return out


def check(inp, chk, r):
    before = report(r)
    try:
        other = pickle.loads(pickle.dumps(r)) if inp.native else copied(r, {})
    except (Unpicklable, pickle.PicklingError, TypeError, AttributeError, RecursionError) as why:
        chk(False, "a finished linter can be pickled", why=repr(why)[:200])
        return
    chk.eq(report(other), before, "the copy says the same")
    chk.eq(other.base_uri, r.base_uri, "and has the same attributes")
    chk.eq([other.content_hash, other.decoded.length, other.decoded.hash, other.content_sample, other.version, other.complete], [r.content_hash, r.decoded.length, r.decoded.hash, r.content_sample, r.version, r.complete], "and has the same attributes (2)")
    chk.eq(report(r), before, "the original is unchanged")
    chk.reach("copied")


def field(inp, chk, kind, name, i, pos, trailer):
    v = (seeds.REQUEST if kind == "request" else seeds.RESPONSE)[name][i]
    v = v[:pos] + inp.bytes("w", 1) + v[pos + 1:]
    fields = [(name.encode(), v)]
    send = lib.request if kind == "request" else lib.response
    check(inp, chk, send(COMMON if trailer else fields + COMMON[:2], trailers=fields if trailer else None))
    chk.reach("trailer" if trailer else "header")


def content(inp, chk, kind, coding):
    """Any content, decoded."""
    fields = COMMON[:3] + [(b"Content-Length", inp.bytes("n", 1, alphabet=b"0123456789x"))]
    if coding:
        fields.append((b"Content-Encoding", coding.encode()))
    body = BODIES[inp.choice("body", list(BODIES))]
    cut = inp.choice("cut", [0, 1, 10, len(body)])
    check(inp, chk, lint(kind, fields, [body[:cut], body[cut:]], inp.bool("skip")))
    chk.reach("content")


def exchange(inp, chk):
    """A response with its request."""
    q = lib.request([(n.encode(), seeds.REQUEST[n][0]) for n in PAIRED["response"]], method=inp.choice("method", [b"GET", b"OPTIONS", b"FOO"]))
    status = inp.bytes("status", 3, alphabet=b"0123456789x")
    r = lib.response([(n.encode(), seeds.RESPONSE[n][0]) for n in PAIRED["request"]], status=status, req=q)
    if inp.bool("both"):
        q.response = r
    check(inp, chk, r)
    check(inp, chk, q)
    chk.reach("exchange")


def equal(inp, chk, n):
    """Notes are equal when they say the same about the same thing."""
    a, b = inp.text("a", n, alphabet="xyX"), inp.text("b", n, alphabet="xyX")
    r = lib.response([(b"Set-Cookie", b"a=b; " + a.encode() + b"; " + b.encode()), (b"Set-Cookie", b"c=d; " + a.encode())])
    notes = [m for m in r.notes if type(m).__name__ == "SET_COOKIE_UNKNOWN_ATTRIBUTE"]
    for i in range(len(notes)):
        for j in range(len(notes)):
            same = notes[i].subject == notes[j].subject and notes[i].vars["attribute"] == notes[j].vars["attribute"]
            chk.eq(notes[i] == notes[j], same, "notes are equal when they say the same about the same line, and not otherwise")
    chk.eq(len(notes), 3, "unknown attributes are reported")
    chk(not any([x == y for x in r.notes for y in r.notes if type(x) is not type(y)]), "different notes aren't equal")
    chk.reach("equal" if a == b else "unequal")


def tasks(tier):
    out = []
    deep = tier == "thorough"
    for kind in ("response", "request"):
        for name, values in sorted((seeds.REQUEST if kind == "request" else seeds.RESPONSE).items()):
            for i, v in enumerate(values):
                for pos in range(len(v) + 1) if deep else [len(v) // 2]:
                    for trailer in (False, True):
                        out.append(dict(func="field", params=dict(kind=kind, name=name, i=i, pos=pos, trailer=trailer)))
        for coding in (None, "gzip", "br", "foo", "gzip, gzip", "gzip, br"):
            out.append(dict(func="content", params=dict(kind=kind, coding=coding)))
    out.append(dict(func="exchange", params={}))
    for n in (1, 2, 3):
        out.append(dict(func="equal", params=dict(n=n)))
    return out


BUDGET = {"quick": 60, "thorough": 600}
CONTINUE = True
MUST_REACH = ["copied", "header", "trailer", "content", "exchange", "equal", "unequal"]
BOUNDS = {
    "quick": "finished messages with each known field, with one arbitrary octet in the middle of each skeleton value, in headers and in trailers; six contents in two chunks, with six codings; exchanges with any status of three digits or x; notes about two unknown attributes of up to 3 characters",
    "thorough": "the arbitrary octet at each place",
}
OUTSIDE = "linters that aren't finished (their content's hash can't go on)"
ASSUMPTIONS = ["symbolically, pickling is modelled by a copier that follows pickle's protocol (globals by name, __reduce_ex__(4), state); counterexamples are replayed with the real pickle"]
