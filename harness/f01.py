"""F01: fields are identified by their whole name, in any letter case."""
from httplint import get_field_description

from harness import lib, seeds
from harness.fields import ALIASES, BOTH, DEPRECATED, DEPRECATED_PARSED, KNOWN, MANGLED, REQUEST_ONLY, TCHAR, UNNECESSARY, anycase

NAME_NOTES = ["FIELD_NAME_BAD_SYNTAX", "FIELD_NAME_ENCODING"]
KEEP = {"connectiox", "cteonnt-length", "x-cnection"}  # shown as received


def seed(name):
    return (seeds.REQUEST if name in seeds.REQUEST and name not in seeds.RESPONSE else seeds.RESPONSE)[name]


def send(kind, fields, trailers=None):
    return lib.request(fields, trailers=trailers) if kind == "request" else lib.response(fields, trailers=trailers)


def shown(msg, skip=("header_name",)):
    """Everything reported, with the variables."""
    out = []
    for n in lib.all_notes(msg):
        out.append((type(n).__name__, n.subject, n.level.value, n.category.name, [(k, str(v)) for k, v in n.vars.items() if k not in skip]))
    return out


def casing(inp, chk, name, i, kind, twice):
    """A field with its name in any letter case, alone or following a line of the same field in lower case."""
    value = seed(name)[i]
    wire = anycase(inp, name)
    first = [(name.encode(), value)] if twice else []
    got = send(kind, first + [(b"Unrelated", b"x"), (wire, value)])
    want = send(kind, first + [(b"Unrelated", b"x"), (name.encode(), value)])
    chk.eq(lib.names(got), lib.names(want), "the same notes in any letter case")
    if name in KNOWN:
        chk.eq(shown(got), shown(want), "the same details in any letter case")
        for n in got.notes:
            if "field_name" in n.vars and n.subject in ("offset-0", "offset-1", "field-" + name):
                chk.eq(n.vars["field_name"], KNOWN[name], "canonical name shown", note=type(n).__name__)
                chk.reach("canonical")
    chk.eq(sorted(got.headers.parsed.keys()), sorted([name, "unrelated"]), "parsed under the lower-case name")
    chk(same(got.headers.parsed[name], want.headers.parsed[name]), "same value in any letter case")


def same(a, b):
    return str(a) == str(b)


def trailer(inp, chk, name, kind):
    value = seed(name)[0]
    got = send(kind, [], trailers=[(anycase(inp, name), value)])
    want = send(kind, [], trailers=[(name.encode(), value)])
    chk.eq(lib.names(got), lib.names(want), "the same notes in any letter case in trailers")
    chk.eq(sorted(got.trailers.parsed.keys()), [name], "parsed under the lower-case name")


def marked(inp, chk, name, kind):
    """Deprecated and unnecessary fields are reported once a line, in any letter case."""
    n = inp.choice("lines", [1, 2])
    wire = anycase(inp, name)
    got = send(kind, [(wire, b"a")] + [(name.encode(), b"b")] * (n - 1))
    want = "UNNECESSARY_HEADER" if name in UNNECESSARY else "FIELD_DEPRECATED"
    notes = [x for x in got.notes if type(x).__name__ in ("UNNECESSARY_HEADER", "FIELD_DEPRECATED")]
    chk.eq([(type(x).__name__, x.subject) for x in notes], [(want, "offset-" + str(k)) for k in range(n)], "deprecated or unnecessary fields are reported")
    for x in notes:
        if want == "FIELD_DEPRECATED":
            chk.eq(x.vars["field_name"], name, "canonical name shown")
    chk.eq([lib.count(got, k) for k in NAME_NOTES], [0, 0], "no note about the name")


def not_marked(inp, chk, name):
    """Fields that aren't deprecated are not reported as such."""
    got = send("request" if name in [x.lower() for x in REQUEST_ONLY] else "response", [(anycase(inp, name), inp.choice("v", seed(name)))])
    chk.eq([lib.count(got, k) for k in ("FIELD_DEPRECATED", "UNNECESSARY_HEADER")], [0, 0], "not deprecated or unnecessary")


def alias(inp, chk, name):
    wire = anycase(inp, name)
    target = ALIASES[name]
    d = get_field_description(wire.decode("ascii"))
    chk(d is not None, "mangled names are known")
    chk.eq(d, get_field_description(target), "mangled names are described as what they stand for")
    got = lib.response([(wire, b"x")])
    want = lib.response([(target.encode(), b"x")])
    chk.eq([(type(n).__name__, n.vars.get("field_name")) for n in got.notes if n.subject == "offset-0"],
           [(type(n).__name__, n.vars.get("field_name")) for n in want.notes if n.subject == "offset-0"], "reported as what they stand for")


def any_name(inp, chk, n, alphabet):
    """Names that are tokens are never reported; others always are, once a line."""
    name = inp.bytes("name", n, alphabet=None if alphabet is None else alphabet)
    kind = inp.choice("kind", ["request", "response"])
    where = inp.choice("where", ["headers", "trailers"])
    fields = [(b"Foo", b"x"), (name, b"1")]
    got = send(kind, fields if where == "headers" else [], fields if where == "trailers" else None)
    ok = n > 0
    high = False
    for b in name:
        if b not in TCHAR:
            ok = False
        if b > 127:
            high = True
    bad = lib.count(got, "FIELD_NAME_BAD_SYNTAX")
    chk.eq(lib.count(got, "FIELD_NAME_ENCODING"), 1 if high else 0, "non-ASCII names are reported")
    if not high:
        chk.eq(bad, 0 if ok else 1, "invalid names are reported")
        for x in got.notes:
            if type(x).__name__ == "FIELD_NAME_BAD_SYNTAX":
                chk.eq(x.subject, "offset-1", "subject")
                chk.reach("bad name")
    else:
        chk.reach("high")


def near(inp, chk, name, delete, where):
    """A name that differs from a known field's in one or two bytes isn't that field."""
    pos = inp.choice("pos", range(0, len(name) - delete + 1))
    w = inp.bytes("w", 1)
    wire = name.encode()[:pos] + w + name.encode()[pos + delete:]
    inp.assume(w[0] < 128)
    lower = wire.lower()
    inp.assume(lower != name.encode())
    for k in KNOWN:
        if len(k) == len(lower):
            inp.assume(lower != k.encode())
    for k in DEPRECATED + UNNECESSARY + list(ALIASES) + MANGLED:
        if len(k) == len(lower):
            inp.assume(lower != k.lower().encode())
    value = b"\\,(1"
    kind = "request" if name in [x.lower() for x in REQUEST_ONLY] else "response"
    fields = [(wire, value)]
    got = send(kind, fields if where == "headers" else [], fields if where == "trailers" else None)
    base = send(kind, [])
    chk.eq([x for x in lib.names(got) if x[0] != "FIELD_NAME_BAD_SYNTAX"], lib.names(base), "fields with other names are not interpreted")
    section = got.headers if where == "headers" else got.trailers
    chk(name not in section.parsed, "not parsed as the known field")
    chk.reach("near")


def underscore(inp, chk, name):
    """Underscores aren't hyphens."""
    wire = b""
    for i, c in enumerate(name):
        wire = wire + (inp.bytes("u" + str(i), 1, alphabet="-_") if c == "-" else c.encode())
    inp.assume(wire != name.encode())
    kind = "request" if name in [x.lower() for x in REQUEST_ONLY] else "response"
    got = send(kind, [(wire, b"\\,(1")])
    chk.eq(lib.names(got), lib.names(send(kind, [])), "fields with other names are not interpreted")
    chk(name not in got.headers.parsed, "not parsed as the known field")


def beside(inp, chk, name):
    """A known field next to one whose name has underscores for some of its hyphens."""
    wire = b""
    for i, c in enumerate(name):
        wire = wire + (inp.bytes("u" + str(i), 1, alphabet="-_") if c == "-" else c.encode())
    inp.assume(wire != name.encode())
    kind = "request" if name in [x.lower() for x in REQUEST_ONLY] else "response"
    line = (name.encode(), seed(name)[0])
    if inp.choice("first", [True, False]):
        fields, base = [line, (wire, b"\\,(1")], [line, (b"foo", b"1")]
    else:
        fields, base = [(wire, b"\\,(1"), line], [(b"foo", b"1"), line]
    got, want = send(kind, fields), send(kind, base)
    chk.eq(shown(got), shown(want), "what's said about a field doesn't depend on similar names")
    chk(same(got.headers.parsed[name], want.headers.parsed[name]), "nor does its value")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for name in KNOWN:
        if name not in seeds.RESPONSE and name not in seeds.REQUEST:
            continue
        kind = "request" if name in [x.lower() for x in REQUEST_ONLY] else "response"
        for i in range(len(seed(name)) if deep else 1):
            for twice in (False, True):
                out.append({"func": "casing", "params": {"name": name, "i": i, "kind": kind, "twice": twice}})
        out.append({"func": "trailer", "params": {"name": name, "kind": kind}})
        for delete in (0, 1):
            for where in ("headers", "trailers"):
                out.append({"func": "near", "params": {"name": name, "delete": delete, "where": where}})
        if "-" in name:
            out.append({"func": "underscore", "params": {"name": name}})
            out.append({"func": "beside", "params": {"name": name}})
        if name not in [x.lower() for x in DEPRECATED_PARSED] + ["tcn"]:
            out.append({"func": "not_marked", "params": {"name": name}})
    for name in [x.lower() for x in DEPRECATED] + UNNECESSARY + list(ALIASES) + MANGLED:
        for delete in (0, 1):
            out.append({"func": "near", "params": {"name": name, "delete": delete, "where": "headers"}})
        if "-" in name:
            out.append({"func": "underscore", "params": {"name": name}})
    for name in DEPRECATED + UNNECESSARY:
        for kind in ("request", "response"):
            out.append({"func": "marked", "params": {"name": name, "kind": kind}})
    for name in DEPRECATED_PARSED:
        out.append({"func": "marked", "params": {"name": name, "kind": "request" if name in REQUEST_ONLY else "response"}})
    for name in ALIASES:
        out.append({"func": "alias", "params": {"name": name}})
    out += [{"func": "any_name", "params": {"n": n, "alphabet": None}} for n in ((0, 1, 2) if not deep else (0, 1, 2, 3))]
    return out


BUDGET = {"quick": 90, "thorough": 500}
BOUNDS = {
    "quick": "every known field name in every combination of letter cases, alone, repeated, and as a trailer, with one value each; every known, deprecated, unnecessary and mangled name with one byte inserted or replaced by any of 128; every combination of hyphens and underscores, alone and beside the field itself; every deprecated, unnecessary and mangled name in every letter case; every name of 0-2 bytes",
    "thorough": "as quick with all values of harness/seeds.py and names of 3 bytes",
}
OUTSIDE = "names with several wrong bytes; the descriptions' wording"
MUST_REACH = ["canonical", "near", "bad name"]
