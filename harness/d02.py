"""D02: the order of fields with different names doesn't matter."""
from harness import lib, seeds
from harness.d01 import plain

CONTEXT = {
    "response": [
        (b"Cache-Control", b"max-age=60, private"), (b"Date", b"Mon, 04 Jul 2011 09:08:06 GMT"), (b"Content-Type", b"text/html"), (b"Vary", b"Accept-Encoding"),
        (b"Reporting-Endpoints", b'e="https://a/b"'), (b"Content-Encoding", b"dcb"), (b"Connection", b"Foo"), (b"Trailer", b"Foo"), (b"Expires", b"Mon, 04 Jul 2011 09:09:06 GMT"),
        (b"Last-Modified", b"Mon, 04 Jul 2011 09:07:06 GMT"), (b"ETag", b'"a"'), (b"Age", b"5"), (b"Content-Length", b"3"), (b"Transfer-Encoding", b"chunked"), (b"Location", b"/a"),
        (b"Strict-Transport-Security", b"max-age=1"), (b"Access-Control-Allow-Origin", b"http://a.b"), (b"Content-Range", b"bytes 0-1/3"), (b"Link", b"<a>; rel=preload; as=b"),
        (b"Report-To", b'{"group": "g", "max_age": 1, "endpoints": [{"url": "https://a/"}]}'), (b"Content-Disposition", b"inline"), (b"Foo", b"1"), (b"Set-Cookie", b"a=b; secure"),
    ],
    "request": [
        (b"Host", b"example.com"), (b"User-Agent", b"a"), (b"Origin", b"http://a.b"), (b"Access-Control-Request-Headers", b"a"), (b"Accept-Encoding", b"dcb"), (b"Connection", b"TE"),
        (b"Content-Type", b"text/plain"), (b"Content-Length", b"3"), (b"Range", b"bytes=0-1"), (b"If-Range", b'"a"'), (b"Expect", b"100-continue"), (b"Referer", b"http://a.b/c"),
        (b"Cache-Control", b"no-cache"), (b"Pragma", b"no-cache"), (b"Foo", b"1"), (b"If-None-Match", b'"a"'), (b"If-Modified-Since", b"Mon, 04 Jul 2011 09:07:06 GMT"),
    ],
}


def report(msg, fields):
    """What's said about a message, whatever the order."""
    notes = []
    for n in lib.all_notes(msg):
        s = n.subject
        if s[:7] == "offset-" and int(s[7:]) < len(fields):
            i = int(s[7:])
            s = "line " + fields[i][0].decode().lower() + " " + str(ordinal(fields, i))
        notes.append([type(n).__name__, s, [[k, plain(n.vars[k])] for k in sorted(n.vars)]])
    values = {}
    for k, v in msg.headers.parsed.items():
        values[k] = plain(v)
    return [notes, [[k, values[k]] for k in sorted(values)]]


def ordinal(fields, i):
    """Which of the lines with its name a line is."""
    n = 0
    for j in range(i):
        if fields[j][0].lower() == fields[i][0].lower():
            n += 1
    return n


def same(chk, a, b, what):
    """Equal up to the order of notes."""
    chk.eq(sorted([n[0] + " " + n[1] for n in a[0]]), sorted([n[0] + " " + n[1] for n in b[0]]), what)
    names = []
    for n in a[0]:
        if n[:2] not in names:
            names.append(n[:2])
    for k in names:
        mine = [n for n in a[0] if n[:2] == k]
        yours = [n for n in b[0] if n[:2] == k]
        chk.eq(mine, yours, what + " (details)")
    chk.eq(a[1], b[1], what + " (values)")


def send(kind, fields, status, method):
    if kind == "request":
        return lib.request(fields, method=method, content=b"abc")
    req = lib.request([(b"User-Agent", b"a"), (b"Origin", b"http://a.b"), (b"Range", b"bytes=0-1"), (b"Accept-Encoding", b"gzip")], method=method)
    return lib.response(fields, status=status, req=req, content=b"abc")


def lists(kind):
    return seeds.REQUEST if kind == "request" else seeds.RESPONSE


def moved(inp, chk, kind, name, i, delete, insert, alphabet):
    """A field, with any edit of a valid value or a short arbitrary one, first, last, or in the middle of others."""
    if i < 0:
        value = inp.bytes("v", insert)
    else:
        value = lists(kind)[name][i]
        if insert:
            pos = inp.choice("pos", range(0, len(value) - delete + 1))
            value = value[:pos] + inp.bytes("w", insert, alphabet=alphabet) + value[pos + delete:]
    status = inp.choice("status", [b"200", b"206", b"304"]) if kind == "response" and not insert else b"200"
    method = inp.choice("method", [b"GET", b"OPTIONS"]) if not insert else b"GET"
    rest = [f for f in CONTEXT[kind] if f[0].lower() != name.encode()]
    mine = (name.encode(), value)
    first = [mine] + rest
    last = rest + [mine]
    a = report(send(kind, first, status, method), first)
    b = report(send(kind, last, status, method), last)
    same(chk, a, b, "a field is judged the same wherever it is")
    chk.reach("moved")


def reversed_(inp, chk, kind):
    """All fields' examples, forwards and backwards, or rotated."""
    fields = []
    for name in sorted(lists(kind)):
        v = inp.choice(name, [0, 1]) if name in ("vary", "content-encoding", "connection", "cache-control", "strict-transport-security") else 0
        values = lists(kind)[name]
        fields.append((name.encode(), values[v] if v < len(values) else values[0]))
    k = inp.choice("k", range(0, len(fields), 8))
    other = fields[k:] + fields[:k]
    if inp.bool("back"):
        other = other[::-1]
    a = report(send(kind, fields, b"200", b"GET"), fields)
    b = report(send(kind, other, b"200", b"GET"), other)
    same(chk, a, b, "fields are judged the same in any order")
    chk.reach("reversed")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    wide = [c for c in range(256) if c not in (0x0b, 0x0c, 0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0)]
    some = list(b' ,;="a0*/')
    for kind in ("response", "request"):
        for name in sorted(lists(kind)):
            for i in range(len(lists(kind)[name])):
                out.append(dict(func="moved", params=dict(kind=kind, name=name, i=i, delete=0, insert=0, alphabet=None)))
                out.append(dict(func="moved", params=dict(kind=kind, name=name, i=i, delete=1, insert=1, alphabet=wide if deep else some), weight=3))
            out.append(dict(func="moved", params=dict(kind=kind, name=name, i=-1, delete=0, insert=1, alphabet=None)))
        out.append(dict(func="reversed_", params=dict(kind=kind), weight=10))
    return out


BUDGET = {"quick": 400, "thorough": 900}
CONTINUE = True
MUST_REACH = ["moved", "reversed"]
BOUNDS = {
    "quick": "for each known field, its valid examples, those with any one character replaced by one of nine, and any value of one byte: before and after 17 (requests) or 23 (responses) other fields, for three statuses and two methods; messages with all known fields, rotated and reversed",
    "thorough": "the same with replacements by any byte",
}
OUTSIDE = "the order of notes; the order of lines of the same field; more than one edited field at a time"
ASSUMPTIONS = ["notes about a line are compared by the line they're about"]
