"""M06: skipping the content, or dividing it differently, changes only what it should."""
from harness import lib, seeds
from harness.d01 import plain

# what can be said about content
CONTENT = ["CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED", "CONTENT_TYPE_MISMATCH", "CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH", "CHARSET_UNDECODABLE",
           "DECOMPRESSION_LIMIT", "BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI"]
BODIES = {
    "none": b"", "html": b"<!DOCTYPE html><p>a", "json": b'{"a": "\xc3\xa9"}', "binary": b"\x89PNG\r\n\x1a\n\xff\xfe",
    "gzip": b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x4b\x04\x00\x43\xbe\xb7\xe8\x01\x00\x00\x00", "broken": b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xff\xff\xff\xff",
}
BASE = [(b"Date", b"Sun, 09 Sep 2001 01:46:40 GMT"), (b"Cache-Control", b"max-age=60"), (b"Vary", b"Accept")]


def note(n):
    return [type(n).__name__, n.subject, [[k, plain(v)] for k, v in n.vars.items()], [note(s) for s in n.subnotes]]


def lint(kind, fields, chunks, skip, status=b"200", method=b"POST", head=False, req=None):
    if kind == "request":
        r = lib.HttpRequestLinter(start_time=1000000000, no_content=skip)
        r.base_uri = "http://h.i/j"
        r.process_request_topline(method, b"http://h.i/j", b"HTTP/1.1")
    else:
        r = lib.HttpResponseLinter(start_time=1000000000, no_content=skip)
        r.base_uri = "http://h.i/j"
        r.is_head_response = head
        if req is not None:
            r.request = req
        r.process_response_topline(b"HTTP/1.1", status, b"OK")
    r.process_headers(fields)
    for c in chunks:
        r.feed_content(c)
    r.finish_content(True)
    return r


def compare(chk, kind, fields, body, **kw):
    full = lint(kind, fields, [body], False, **kw)
    want = [note(n) for n in full.notes if type(n).__name__ not in CONTENT]
    for chunks in ([body], []):
        r = lint(kind, fields, chunks, True, **kw)
        chk.eq([note(n) for n in r.notes], want, "without the content, everything else is said, and nothing about the content")
        chk.eq(plain(r.headers.parsed), plain(full.headers.parsed), "fields' values don't depend on the content")
    if len(want) < len(full.notes):
        chk.reach("content")
    chk.reach("skipped")


def field(inp, chk, kind, name, i, pos):
    """Each field, edited, with any content."""
    v = (seeds.REQUEST if kind == "request" else seeds.RESPONSE)[name][i]
    v = v[:pos] + inp.bytes("w", 1) + v[pos + 1:]
    body = BODIES[inp.choice("body", ["none", "html"])]
    compare(chk, kind, BASE + [(name.encode(), v)], body)


def described(inp, chk, kind):
    """What describes the content."""
    fields = []
    for name, values in (("Content-Type", [b"text/html", b"application/json", b"text/plain;charset=us-ascii", b"x"]), ("Content-Encoding", [b"gzip", b"br", b"foo"]), ("Content-Length", [b"0", b"19", b"x"])):
        v = inp.choice(name, [None] + values)
        if v is not None:
            fields.append((name.encode(), v))
    compare(chk, kind, BASE + fields, BODIES[inp.choice("body", list(BODIES))], head=inp.bool("head") if kind == "response" else False)


def status(inp, chk, method):
    """Any status, with any request."""
    s = b"%d" % inp.choice("first", [1, 2, 3, 4, 5]) + inp.bytes("s", 2, alphabet=b"0123456789")
    fields = inp.choice("fields", [[], BASE, BASE[1:] + [(b"Content-Length", b"19"), (b"Location", b"/a")]])
    compare(chk, "response", fields, BODIES[inp.choice("body", ["none", "html"])], status=s, req=lib.request([(b"Accept", b"a/b"), (b"Range", b"bytes=0-1")], method=method.encode()))


def target(inp, chk, n):
    """Any method."""
    m = inp.choice("base", [b"GET", b"HEAD", b"DELETE", b"TRACE", b"CONNECT", b"OPTIONS", b"PATCH"])
    m = m[:-1] + inp.bytes("m", n, alphabet=[c for c in range(33, 127)])
    compare(chk, "request", BASE + [(b"Content-Length", b"19")], BODIES[inp.choice("body", ["none", "html"])], method=m)


def everything(r):
    return [[note(n) for n in r.notes], plain(r.headers.parsed), r.content_length, r.content_hash, r.content_sample, r.decoded.length, r.decoded.hash, r.character_encoding]


def chunks(inp, chk, kind, body, coding):
    """The same content, in other chunks."""
    data = BODIES[body]
    fields = BASE + [(b"Content-Type", inp.choice("type", [b"text/html", b"application/json"])), (b"Content-Length", inp.choice("length", [b"0", str(len(data)).encode()]))]
    if coding:
        fields.append((b"Content-Encoding", coding.encode()))
    want = everything(lint(kind, fields, [data], False))
    i = inp.choice("i", range(0, len(data) + 1))
    j = inp.choice("j", [1, len(data)])
    parts = [data[:i], data[i:i + j], data[i + j:]]
    if inp.bool("empty"):
        parts = [b"", parts[0], b"", parts[1], parts[2], b""]
    got = everything(lint(kind, fields, parts, False))
    chk.eq(got[2:], want[2:], "content is the same in any chunks")
    if coding in (None, "foo") or body == coding:  # notes about broken content show the chunk it's in
        chk.eq(got[:2], want[:2], "what's said doesn't depend on the chunks")
    else:
        chk.eq([n[0] for n in got[0]], [n[0] for n in want[0]], "what's said doesn't depend on the chunks")
    chk.reach("chunks")


def pieces(inp, chk, kind, body, coding):
    """The same content, in chunks of any one size."""
    data = BODIES[body] * inp.choice("times", [1, 9] if body not in ("gzip", "broken") else [1])
    fields = BASE + [(b"Content-Type", inp.choice("type", [b"text/html", b"application/json"])), (b"Content-Length", inp.bytes("length", 1, alphabet=b"0123456789") + inp.choice("more", [b"", b"1", b"9"]))]
    if coding:
        fields.append((b"Content-Encoding", coding.encode()))
    size = inp.choice("size", [1, 2, 3, 5, 7, 16])
    want = everything(lint(kind, fields, [data], False))
    got = everything(lint(kind, fields, [data[i:i + size] for i in range(0, len(data), size)], False))
    chk.eq(got[2:], want[2:], "content is the same in any chunks")
    if coding in (None, "foo") or body == coding:
        chk.eq(got[:2], want[:2], "what's said doesn't depend on the chunks")
    else:
        chk.eq([n[0] for n in got[0]], [n[0] for n in want[0]], "what's said doesn't depend on the chunks")
    chk.reach("pieces")


def tasks(tier):
    out = []
    deep = tier == "thorough"
    for kind in ("response", "request"):
        for name, values in sorted((seeds.REQUEST if kind == "request" else seeds.RESPONSE).items()):
            for i, v in enumerate(values):
                for pos in range(len(v) + 1) if deep else [len(v) // 2]:
                    out.append(dict(func="field", params=dict(kind=kind, name=name, i=i, pos=pos)))
        out.append(dict(func="described", params=dict(kind=kind)))
        for body in BODIES if kind == "response" else ("html", "gzip"):
            for coding in (None, "gzip", "br", "foo"):
                out.append(dict(func="pieces", params=dict(kind=kind, body=body, coding=coding)))
                out.append(dict(func="chunks", params=dict(kind=kind, body=body, coding=coding)))
    for m in ("GET", "HEAD", "PUT", "OPTIONS"):
        out.append(dict(func="status", params=dict(method=m)))
    for n in (1, 2) if deep else (1,):
        out.append(dict(func="target", params=dict(n=n)))
    return out


BUDGET = {"quick": 60, "thorough": 600}
CONTINUE = True
MUST_REACH = ["content", "skipped", "chunks", "pieces"]
BOUNDS = {
    "quick": "each known field with one arbitrary octet in the middle of each skeleton value; any status from 100 to 599 with 4 requests and 3 sets of fields; methods with any last character; six contents with combinations of Content-Type, -Encoding and -Length; each division of those contents into up to three chunks (the middle one of one byte or the rest), and empty ones; or chunks of 1, 2, 3, 5, 7 or 16 bytes, and the same nine times over",
    "thorough": "the arbitrary octet at each place; methods with any two last characters",
}
OUTSIDE = "contents other than the six (M01, M02 and P09 have arbitrary ones); what notes about broken compression show of the chunk that they occur in"
ASSUMPTIONS = []
