"""F10: fields in trailers are read as in headers, and change nothing else that's said."""
from harness import lib, seeds
from harness.d01 import plain

# notes about the message, made from its headers' fields only
MESSAGE = ("CORS_", "ACAO_", "STORE_", "FRESH_", "FRESHNESS_", "STALE_", "CURRENT_AGE", "CL_CORRECT", "CL_INCORRECT", "BAD_BROTLI", "BAD_GZIP", "BAD_ZLIB", "DICTIONARY_COMPRESSED_")
DATE = b"Sun, 09 Sep 2001 01:46:40 GMT"
BASE = {
    "response": [(b"Date", DATE), (b"Cache-Control", b"max-age=60"), (b"Content-Type", b"text/html"), (b"ETag", b'"a"'), (b"Content-Length", b"5"), (b"Set-Cookie", b"a=b"), (b"Trailer", b"x-a")],
    "request": [(b"Date", DATE), (b"Host", b"a"), (b"User-Agent", b"b/1"), (b"Content-Length", b"5"), (b"Accept", b"a/b"), (b"Cookie", b"a=b")],
}
CACHING = ["store_shared", "store_private", "age", "freshness_lifetime_shared", "freshness_lifetime_private", "is_fresh_private", "is_fresh_shared"]


def send(kind, fields, trailers=None):
    if kind == "request":
        return lib.request(fields, method=b"POST", content=b"abcde", trailers=trailers)
    return lib.response(fields, content=b"abcde", trailers=trailers)


def table(kind):
    return seeds.REQUEST if kind == "request" else seeds.RESPONSE


def note(n):
    return [type(n).__name__, n.subject, [[k, plain(v)] for k, v in n.vars.items()], [note(s) for s in n.subnotes]]


def take(out, n):
    """Remove one note like n from the list."""
    for i, m in enumerate(out):
        if m[0] == n[0] and m[1] == n[1] and m == n:
            return out[:i] + out[i + 1:], True
    return out, False


def trailer(inp, chk, kind, name, i, pos, delete, insert, same):
    v = table(kind)[name][i]
    v = v[:pos] + inp.bytes("w", insert) + v[pos + delete:]
    wire = name.encode()
    base = [f for f in BASE[kind] if f[0].lower() != wire]
    if same:
        base = base + [(wire, table(kind)[name][-1])]
    k = len(base)
    alone = [f for f in base if f[0] != wire]
    without = send(kind, base)
    r = send(kind, base, trailers=[(b"X-A", b"1"), (wire, v)])
    # nothing that's said without the trailers changes
    rest = [note(n) for n in r.notes]
    for n in without.notes:
        rest, found = take(rest, note(n))
        chk(found, "what's said about a message doesn't depend on its trailers", note=type(n).__name__)
    chk.eq(plain(r.headers.parsed), plain(without.headers.parsed), "headers' values don't depend on trailers")
    if kind == "response":
        chk.eq([plain(getattr(r.caching, a, None)) for a in CACHING], [plain(getattr(without.caching, a, None)) for a in CACHING], "caching doesn't depend on trailers")
    for n in rest:
        chk(n[1] == "offset-1" or n[1] == "field-" + name, "what's added is about the trailer", note=n[0])
    # and they're read like headers
    h = send(kind, alone + [(wire, v)])
    at = "offset-" + str(len(alone))
    chk.eq(plain(r.trailers.parsed[name]), plain(h.headers.parsed[name]), "fields in trailers have the values that they'd have in headers")
    lines = [[n[0], n[2:]] for n in rest if n[1] == "offset-1"]
    chk.eq(lines, [[n[0], n[2:]] for n in [note(n) for n in h.notes] if n[1] == at], "what's said about a line in trailers is what would be said about it in headers")
    if lines:
        chk.reach("line")
    about = sorted([n[0] for n in rest if n[1] == "field-" + name and not n[0].startswith(MESSAGE)])
    quiet = [type(n).__name__ for n in send(kind, alone).notes if n.subject == "field-" + name]
    chk.eq(about, sorted([type(n).__name__ for n in h.notes if n.subject == "field-" + name and type(n).__name__ not in quiet and not type(n).__name__.startswith(MESSAGE)]), "what's said about a field in trailers is what would be said about it in headers")
    if about:
        chk.reach("field")
    chk.reach("same" if same else "other")


def tasks(tier):
    out = []
    deep = tier == "thorough"
    for kind in ("response", "request"):
        for name in sorted(table(kind)):
            for i, v in enumerate(table(kind)[name]):
                for same in (False, True):
                    for pos in range(len(v) + 1) if deep else sorted({len(v) // 2, len(v)}):
                        out.append(dict(func="trailer", params=dict(kind=kind, name=name, i=i, pos=pos, delete=1, insert=1, same=same)))
    return out


BOUNDS = {
    "quick": "each known field in a trailer section, with 1 arbitrary octet in the middle and at the end of each skeleton value; in messages with and without the same field in their headers",
    "thorough": "the same, with the arbitrary octet at each place",
}
OUTSIDE = "several trailers at once; what's said about whole messages (caching, CORS, length) from fields in their headers"
ASSUMPTIONS = []
BUDGET = {"quick": 60, "thorough": 600}
CONTINUE = True
MUST_REACH = ["line", "field", "same", "other"]
