"""D01: what's reported about a message depends on that message alone."""
import json
import subprocess
import sys

from harness import lib, seeds
from sx.state import State

try:
    from sx import rt
except ImportError:  # natively
    rt = None

COMMON = [(b"Cache-Control", b"max-age=60, private"), (b"Date", b"Mon, 04 Jul 2011 09:08:06 GMT"), (b"Content-Type", b'text/html; charset="utf-8"'), (b"Vary", b"Foo, *"), (b"Set-Cookie", b"a=b; path=/; secure"), (b"Link", b'<a>; rel="next"; title="b"')]


# what's wrong with these is said about many fields
WRONG = [(b"Age", b"1"), (b"Age", b"1"), (b"Content-Language", b"("), (b"Permissions-Policy", b"a=(,b"), (b"NEL", b"{"), (b"Last-Modified", b"x"), (b"Last-Modified", b"x"), (b"Priority", b"a;a=1;a=2"), (b"If-Modified-Since", b"Sunday, 06-Nov-94 08:49:37 GMT"), (b"Range", b"x"),
         (b"Expires", b"Sunday, 06-Nov-94 08:49:37 GMT"), (b"Content-Type", b"a"), (b"If-Unmodified-Since", b"y"), (b"If-Range", b"(")]


def plain(v, depth=0):
    """A value as nested lists of basic values."""
    if v is None or isinstance(v, (str, int, float, bytes)):
        return v
    if isinstance(v, dict):
        return ["dict"] + [[k, plain(x, depth + 1)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return ["list"] + [plain(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted([plain(x, depth + 1) for x in v])
    name = type(v).__name__
    if depth < 6 and getattr(v, "__dict__", None):
        return [name] + [[k, plain(x, depth + 1)] for k, x in v.__dict__.items()]
    return [name]


def note(n):
    return [type(n).__name__, n.subject, n.category.name, n.level.name, [[k, plain(v)] for k, v in n.vars.items()], [note(s) for s in n.subnotes]]


def report(msg):
    """Everything that's said about a message."""
    return [[note(n) for n in msg.notes], [[k, plain(v)] for k, v in msg.headers.parsed.items()], [[k, plain(v)] for k, v in msg.trailers.parsed.items()],
            plain(msg.headers.text), msg.content_length, msg.character_encoding]


def send(kind, fields, trailers=None):
    return lib.request(fields, trailers=trailers) if kind == "request" else lib.response(fields, trailers=trailers)


def table(kind):
    return seeds.REQUEST if kind == "request" else seeds.RESPONSE


def other(kind, name):
    """A message with the same field, on as many lines as it has examples, and some others."""
    return [(name.encode(), v) for v in table(kind).get(name, [b"x"])] + COMMON + WRONG


FRESH = []


def fresh():
    """Forget all that earlier messages left behind, as in a new process."""
    if not FRESH:
        FRESH.append(State())
    FRESH[0].restore()


def later(kind, fields, trailers=None):
    """The same fields at another time, in answer to another request, from elsewhere."""
    if kind == "request":
        return lib.request(fields, method=b"POST", uri=b"https://z.example:8/y", trailers=trailers, base_uri="https://z.example:8/y")
    r = lib.HttpResponseLinter(start_time=1300000000)
    r.request = lib.request([(b"Origin", b"http://a.b"), (b"Accept-Encoding", b"gzip"), (b"Range", b"bytes=0-1")], method=b"OPTIONS", uri=b"https://z.example:8/y")
    r.base_uri = "https://z.example:8/y"
    r.process_response_topline(b"HTTP/1.1", b"206", b"Partial Content")
    r.process_headers(fields)
    r.finish_content(True, trailers)
    return r


def again(inp, chk, kind, name, i, delete, insert, alphabet):
    """Messages linted one after another: any edit of a valid value, or a short arbitrary one, the same in other circumstances, and others."""
    if i < 0:
        value = inp.bytes("v", insert)
    else:
        value = table(kind)[name][i]
        pos = inp.choice("pos", range(0, len(value) - delete + 1))
        value = value[:pos] + inp.bytes("w", insert, alphabet=alphabet) + value[pos + delete:]
    fields = [(name.encode(), value), (b"Foo", b"1")]
    two = other(kind, name)
    fresh()
    want = report(send(kind, fields))
    fresh()
    want_later = report(later(kind, fields))
    fresh()
    b = send(kind, two, trailers=two[:1])
    first = report(b)
    a = send(kind, fields)
    c = later(kind, fields)
    b2 = send(kind, two, trailers=two[:1])
    a2 = send(kind, fields)
    chk.eq([report(a), report(a2)], [want, want], "a message is judged the same whatever else has been linted")
    chk.eq(report(c), want_later, "a message is judged the same whatever else has been linted (2)")
    chk.eq([report(b), report(b2)], [first, first], "a message is judged the same whatever else has been linted (3)")
    chk.reach("again")


def between(inp, chk, kind, name, n):
    """Two messages linted step by step, in any order, at the same time."""
    fresh()
    v = inp.bytes("v", n, alphabet=",;= a1\"") if n else table(kind).get(name, [b"x"])[0]
    mine = [(name.encode(), v)] + COMMON[:2]
    yours = other(kind, name)
    alone = [report(send(kind, mine, trailers=mine[:1])), report(send(kind, yours, trailers=yours[:1]))]
    pair = []
    for k in range(2):
        if kind == "request":
            m = lib.HttpRequestLinter(start_time=1000000000)
        else:
            m = lib.HttpResponseLinter(start_time=1000000000)
        m.base_uri = "http://h.i/j"
        pair.append(m)
    todo = [0, 0]
    while todo[0] < 3 or todo[1] < 3:
        k = 0 if todo[1] == 3 or (todo[0] < 3 and inp.bool("s" + str(todo[0]) + str(todo[1]))) else 1
        m, fields = pair[k], [mine, yours][k]
        if todo[k] == 0:
            if kind == "request":
                m.process_request_topline(b"GET", b"http://example.com/", b"HTTP/1.1")
            else:
                m.process_response_topline(b"HTTP/1.1", b"200", b"OK")
        elif todo[k] == 1:
            m.process_headers(fields)
        else:
            m.finish_content(True, fields[:1])
        todo[k] += 1
    chk.eq([report(pair[0]), report(pair[1])], alone, "messages linted at the same time don't affect each other")
    chk.reach("between")


def everything(inp, chk, kind):
    """A message with all fields: judged the same each time."""
    fields = []
    for name in sorted(table(kind)):
        for v in table(kind)[name]:
            fields.append((name.encode(), v))
    start = inp.int("start", 900000000, 1500000000)
    status = str(inp.choice("status", [200, 206, 301, 304, 405, 500])).encode()
    method = inp.choice("method", [b"GET", b"POST", b"OPTIONS"])

    def run(offset):
        if kind == "request":
            m = lib.HttpRequestLinter(start_time=start)
            m.process_request_topline(method, b"http://example.com/", b"HTTP/1.1")
        else:
            m = lib.HttpResponseLinter(start_time=start)
            m.process_response_topline(b"HTTP/1.1", status, b"OK")
        m.base_uri = "http://h.i/j"
        m.process_headers(fields)
        m.finish_content(True, fields[offset:offset + 3])
        return report(m)

    fresh()
    first = run(0)
    run(5)
    chk.eq(run(0), first, "a message is judged the same each time")
    chk.reach("everything")


def crowd(inp, chk, kind, name, count):
    """Many other messages in between, all of them different."""
    values = table(kind)[name]
    pos = len(values[0]) // 2
    mine = [(name.encode(), values[0][:pos] + inp.bytes("w", 1, alphabet=b' ,;="a0*/') + values[0][pos:])] + COMMON[:2]
    fresh()
    first = report(send(kind, mine))
    for i in range(count):
        x = str(i).encode()
        v = values[i % len(values)]
        other = (b"Cookie", b"a" + x + b"=b" + x) if kind == "request" else (b"Set-Cookie", b"a" + x + b"=b" + x + b"; path=/" + x)
        send(kind, [(b"X-" + x, x), (name.encode(), v[:i % (len(v) + 1)] + x + v[i % (len(v) + 1):]), other, (b"Content-Type", b"a/b" + x)])
    chk.eq(report(send(kind, mine)), first, "a message is judged the same however many others have been linted")
    chk.reach("crowd")


# what the other side of an exchange has that's looked at
PAIRED = {"response": ["accept", "accept-encoding", "access-control-request-headers", "access-control-request-method", "authorization", "available-dictionary", "cache-control", "expect", "if-match", "if-none-match", "origin", "range", "te"],
          "request": ["access-control-allow-origin", "allow", "cache-control", "content-encoding", "content-range", "content-security-policy", "content-type", "etag", "reporting-endpoints", "vary"]}


def report_request(q):
    """Everything that's said about a request, but for what its response's caching says about its method."""
    out = report(q)
    return [[n for n in out[0] if n[0] != "STORE_METHOD_UNCACHEABLE"]] + out[1:]


def exchange(inp, chk, kind, name, i):
    """A request's results don't change when its responses are linted; nor do those."""
    value = table(kind)[name][i]
    pos = len(value) // 2
    value = value[:pos] + inp.bytes("w", 1, alphabet=b' ,;="a0*/') + value[pos + 1:]
    mine, yours = [(name.encode(), value)] + COMMON[:2], []
    for n in PAIRED[kind]:
        yours.append((n.encode(), table("request" if kind == "response" else "response")[n][0]))
    method = inp.choice("method", [b"GET", b"OPTIONS"])
    status = inp.choice("status", [b"200", b"304", b"206"])
    fresh()
    q = lib.request(mine if kind == "request" else yours, method=method)
    before = report_request(q)
    fields = mine if kind == "response" else yours
    r = lib.response(fields, status=status, req=q)
    first = report(r)
    r2 = lib.response(fields, status=status, req=q)
    q.response = r2
    chk.eq(report_request(q), before, "a request's results don't change when its response is linted")
    chk.eq([report(r), report(r2)], [first, first], "nor do those of another response to it")
    chk.reach("exchange")


SCRIPT = """
import json, sys
sys.path[:0] = json.loads(sys.argv[1])
from harness import d01
kind, fields = json.loads(sys.argv[2])
print(json.dumps(d01.report(d01.send(kind, [(a.encode("latin-1"), b.encode("latin-1")) for a, b in fields])), default=repr))
"""


def order(inp, chk, kind, name, values):
    """Whatever order a set's members come in (it depends on the process's hash seed), the same is reported."""
    vals = [v.encode("latin-1") for v in values]
    which = inp.choice("which", [(1 << len(vals)) - 1] + ([1 << k for k in range(len(vals))] if len(vals) > 1 else []))
    fields = [(name.encode(), vals[k]) for k in range(len(vals)) if which >> k & 1] + COMMON
    if inp.native:
        job = json.dumps([kind, [[a.decode("latin-1"), b.decode("latin-1")] for a, b in fields]])
        procs = [subprocess.Popen([sys.executable, "-c", SCRIPT, json.dumps(sys.path), job], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env={"PYTHONHASHSEED": str(s), "SX_REPO": sys.path[0]}) for s in range(8)]
        got = [p.communicate()[0] for p in procs]
        for g in got[1:]:
            chk.eq(g, got[0], "what's reported doesn't depend on the order of sets")
        return
    rt.SET_ORDER[0] = True
    first = report(send(kind, fields))
    rt.SET_ORDER[0] = False
    chk.eq(first, report(send(kind, fields)), "what's reported doesn't depend on the order of sets")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    wide = [c for c in range(256) if c not in (0x0b, 0x0c, 0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0)]
    some = list(b' ,;="a0*/')
    for kind in ("response", "request"):
        for name in sorted(table(kind)) + ["foo"]:
            out.append(dict(func="again", params=dict(kind=kind, name=name, i=-1, delete=0, insert=1, alphabet=None)))
            if deep:
                out.append(dict(func="again", params=dict(kind=kind, name=name, i=-1, delete=0, insert=2, alphabet=None), weight=4))
            for i in range(len(table(kind).get(name, []))):
                out.append(dict(func="again", params=dict(kind=kind, name=name, i=i, delete=1, insert=1, alphabet=wide if deep else some), weight=3))
            out.append(dict(func="between", params=dict(kind=kind, name=name, n=0)))
            if deep:
                out.append(dict(func="between", params=dict(kind=kind, name=name, n=1), weight=3))
            for i in range(len(table(kind).get(name, []))):
                out.append(dict(func="exchange", params=dict(kind=kind, name=name, i=i)))
            if name in table(kind) and (deep or name in CROWD):
                out.append(dict(func="crowd", params=dict(kind=kind, name=name, count=70 if not deep else 300)))
            values = [v.decode("latin-1") for v in table(kind).get(name, [])]
            values = (values + EXTRA.get(name, []))[:6]
            if values:
                out.append(dict(func="order", params=dict(kind=kind, name=name, values=values)))
        out.append(dict(func="everything", params=dict(kind=kind), weight=10))
    return out


CROWD = ["accept", "cache-control", "content-security-policy", "content-type", "foo", "if-none-match", "link", "permissions-policy", "set-cookie", "user-agent", "vary"]

# members of several kinds, or several times, so that sets have several members
EXTRA = {
    "cache-group-invalidation": ["1, a, ?0, :YQ==:, 1.5"],
    "cache-groups": ["1, a, ?0, :YQ==:, 1.5"],
    "content-language": ["a, b, c, a, b, c"],
    "vary": ["a, b, c, a, b, c"],
    "set-cookie": ["a=1", "b=1", "a=2", "b=2"],
    "strict-transport-security": ["max-age=1; max-age=2; a; b; a; b; preload; preload"],
    "cache-control": ["public, private, no-store, max-age=1, max-age=2, a, b, a, b"],
    "clear-site-data": ['"cache", "cookies", "a", "b", "a", "b"'],
}
BUDGET = {"quick": 400, "thorough": 900}
CONTINUE = True
MUST_REACH = ["again", "between", "everything", "exchange", "crowd"]
BOUNDS = {
    "quick": "for each known field, any value of one byte, and each valid example with any one character replaced by one of nine; a message with several lines of the same field and six others linted before and in between; all interleavings of two messages' steps; messages with all fields at any time of receipt; 70 different messages between two identical ones; exchanges, with one character of a field in the request or response replaced by one of nine; all orders of sets' members",
    "thorough": "the same with values of two bytes, replacements by any byte, and interleavings with arbitrary one-byte values, and 300 messages in between",
}
OUTSIDE = "the storage verdict on a request's method, which is added to the request (C01); locale and time zone settings, and what's kept by third-party libraries; several threads (N02)"
ASSUMPTIONS = ["each path starts from the state of freshly imported modules, which the executor restores"]
