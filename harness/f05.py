"""F05: fields defined for one kind of message are reported, and otherwise ignored, in the other."""
from harness import lib, seeds
from harness.fields import BOTH, DEPRECATED, KNOWN, REQUEST_ONLY, RESPONSE_ONLY, UNNECESSARY, anycase

MISPLACED = ["REQUEST_HDR_IN_RESPONSE", "RESPONSE_HDR_IN_REQUEST"]


def send(kind, where, fields, extra=()):
    h = list(extra) + (fields if where == "headers" else [])
    t = fields if where == "trailers" else None
    if kind == "request":
        return lib.request(h, trailers=t)
    return lib.response(h, trailers=t)


def misplaced(inp, chk, name, kind, where, n):
    """Any value of n bytes, or (n < 0) a valid one, in the wrong kind of message, on one or two lines."""
    if n < 0:
        value = inp.choice("value", (seeds.REQUEST if kind == "response" else seeds.RESPONSE).get(name.lower(), [b"x"]))
    else:
        value = inp.bytes("value", n)
    wire = inp.choice("wire", [name.encode(), name.lower().encode(), name.upper().encode()])
    two = inp.choice("two", [True, False])
    fields = [(b"Foo", b"1"), (wire, value)] + ([(wire, value)] if two else [])
    r = send(kind, where, fields)
    want = "REQUEST_HDR_IN_RESPONSE" if kind == "response" else "RESPONSE_HDR_IN_REQUEST"
    notes = [x for x in r.notes if type(x).__name__ in MISPLACED]
    chk.eq([(type(x).__name__, x.subject, x.vars["field_name"]) for x in notes],
           [(want, "offset-" + str(i), name) for i in range(1, len(fields))], "misplaced fields are reported once a line")
    rest = [x for x in lib.names(r) if x[0] not in MISPLACED and x[0] != "FIELD_VALUE_ENCODING"]
    chk.eq(rest, lib.names(send(kind, where, [(b"Foo", b"1")])), "misplaced fields are otherwise ignored")
    section = r.headers if where == "headers" else r.trailers
    chk(not section.parsed[name.lower()], "misplaced fields have no value")
    chk.reach(want)


def placed(inp, chk, name, kind, n):
    """Any value in the right kind of message."""
    value = inp.choice("value", (seeds.REQUEST if kind == "request" else seeds.RESPONSE).get(name.lower(), [b"x"])) if n < 0 else inp.bytes("value", n)
    where = inp.choice("where", ["headers", "trailers"])
    r = send(kind, where, [(name.encode(), value)])
    chk.eq([lib.count(r, k) for k in MISPLACED], [0, 0], "fields in the right place aren't reported")


def unknown(inp, chk, n):
    """Fields that aren't known are valid anywhere, and nothing is said about their values."""
    name = b"X" + inp.bytes("name", n, alphabet="abcdefghijklmnopqrstuvwxyz-0123456789") + b"Q"
    value = inp.bytes("value", n)
    kind = inp.choice("kind", ["request", "response"])
    where = inp.choice("where", ["headers", "trailers"])
    r = send(kind, where, [(name, value), (name, b"2")])
    chk.eq([x for x in lib.names(r) if x[0] != "FIELD_VALUE_ENCODING"], lib.names(send(kind, where, [])), "nothing is reported about unknown fields")


def mixed(inp, chk, kind):
    """A misplaced field doesn't change what is said about the others."""
    others = REQUEST_ONLY if kind == "response" else RESPONSE_ONLY
    name = inp.choice("name", others)
    rest = [(b"Cache-Control", b"max-age=5, public"), (b"Date", b"Mon, 04 Jul 2011 09:08:06 GMT"), (b"Content-Type", b"text/html"), (b"Link", b"<a>; rel=b")]
    pos = inp.choice("pos", [0, 2, 4])
    value = (seeds.REQUEST if kind == "response" else seeds.RESPONSE).get(name.lower(), [b"x"])[0]
    r = send(kind, "headers", rest[:pos] + [(name.encode(), value)] + rest[pos:])
    base = send(kind, "headers", rest)
    got = [type(x).__name__ for x in r.notes if type(x).__name__ not in MISPLACED]
    chk.eq(got, [type(x).__name__ for x in base.notes], "other fields are interpreted as without it")
    chk.eq(r.headers.parsed["cache-control"], base.headers.parsed["cache-control"], "other values are unchanged")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for names, bad, good in ((RESPONSE_ONLY, "request", "response"), (REQUEST_ONLY, "response", "request")):
        for name in names:
            for where in ("headers", "trailers"):
                for n in (-1, 0, 1, 2) if not deep else (-1, 0, 1, 2, 3, 6):
                    out.append({"func": "misplaced", "params": {"name": name, "kind": bad, "where": where, "n": n}})
            for n in (-1, 1):
                out.append({"func": "placed", "params": {"name": name, "kind": good, "n": n}})
    for name in BOTH + DEPRECATED + UNNECESSARY:
        for kind in ("request", "response"):
            for n in (-1, 1):
                out.append({"func": "placed", "params": {"name": name, "kind": kind, "n": n}})
    for n in (0, 1, 2):
        out.append({"func": "unknown", "params": {"n": n}})
    for kind in ("request", "response"):
        out.append({"func": "mixed", "params": {"kind": kind}})
    return out


BUDGET = {"quick": 90, "thorough": 400}
BOUNDS = {
    "quick": "each of the fields defined only for responses (57) or only for requests (23), with valid values and every value of 0-2 bytes, in headers and trailers of the wrong kind of message, on one or two lines; the same fields and 14 others in the right kind with valid values and every value of 1 byte; unknown fields with every value of 0-2 bytes",
    "thorough": "as quick with values of 3 and 6 bytes",
}
OUTSIDE = "TE, Content-Location and fields whose specifications disagree about placement"
MUST_REACH = MISPLACED
