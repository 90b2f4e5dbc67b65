"""F02: field sections are recorded, decoded and measured exactly."""
from harness import lib, seeds
from harness.d01 import plain
from harness.fields import BOTH

NOTES = ["FIELD_TOO_LARGE", "FIELD_SECTION_TOO_LARGE", "FIELD_VALUE_ENCODING", "FIELD_NAME_ENCODING"]


def linter(kind):
    if kind == "request":
        r = lib.HttpRequestLinter(start_time=1000000000)
        r.process_request_topline(b"GET", b"http://example.com/", b"HTTP/1.1")
    else:
        r = lib.HttpResponseLinter(start_time=1000000000)
        r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    return r


def run(kind, where, fields):
    r = linter(kind)
    if where == "headers":
        r.process_headers(fields)
        r.finish_content(True)
        return r, r.headers
    r.process_headers([(b"Foo", b"b\xe4r"), (b"Bar", b"x" * 9000)])
    r.finish_content(True, fields)
    return r, r.trailers


NAMES = [b"Foo", b"Age", b"Content-Length", b"bad name", b"ETag", b"Cookie", b"Set-Cookie", b"Set-Cookie2", b"Link"]


def record(inp, chk, where, n):
    """Lines of arbitrary bytes, some of them repeated, in the wrong place, or with an invalid name."""
    kind = inp.choice("kind", ["request", "response"])
    a = inp.choice("a", NAMES)
    b = inp.choice("b", NAMES)
    va = inp.bytes("va", n)
    vb = inp.bytes("vb", 1)
    fields = [(a, va), (b, b"x"), (a, vb)]
    r, s = run(kind, where, fields)
    chk.eq(s.text, [(k.decode("ascii"), v.decode("latin-1")) for k, v in fields], "field lines recorded in order, decoded as ISO-8859-1")
    chk.eq(s.size, sum([len(k) + len(v) for k, v in fields]), "size of the section")
    want = []
    for i, (k, v) in enumerate(fields):
        high = False
        for x in v:
            if x > 127:
                high = True
        if high:
            want.append("offset-" + str(i))
    got = [x.subject for x in r.notes if type(x).__name__ == "FIELD_VALUE_ENCODING"]
    if where == "trailers":
        got = got[1:]  # the header's
    chk.eq(got, want, "non-ASCII values are reported on their lines")
    chk.eq(lib.count(r, "FIELD_NAME_ENCODING"), 0, "names are ASCII")
    if want:
        chk.reach("non-ascii")


def names(inp, chk, where, n):
    """Non-ASCII bytes in names."""
    kind = inp.choice("kind", ["request", "response"])
    name = inp.bytes("name", n)
    r, s = run(kind, where, [(b"Foo", b"1"), (name, b"1"), (b"Foo", b"2")])
    high = False
    for x in name:
        if x > 127:
            high = True
    got = [x.subject for x in r.notes if type(x).__name__ == "FIELD_NAME_ENCODING"]
    chk.eq(got, ["offset-1"] if high else [], "non-ASCII names are reported on their lines")
    chk.eq(len(s.text), 3, "every line is recorded")
    chk.eq(s.size, 3 * 3 + 3 + n - 3, "size of the section")
    if not high:
        chk.eq(s.text[1], (name.decode("ascii"), "1"), "the line as received")


def sizes(inp, chk, where):
    """Field lines around 8K, on known, unknown, misplaced and invalid fields; size = name + value in bytes."""
    kind = inp.choice("kind", ["request", "response"])
    name = inp.choice("name", NAMES)
    delta = inp.choice("delta", [-8000, -1, 0, 1, 2, 5000])
    first = inp.choice("first", [True, False])
    total = 8192 + delta
    free = name in (b"Foo", b"bad name")  # long values of known fields are concrete
    value = (inp.bytes("v", 1) if free else b"a") + b"a" * (total - len(name) - 1)
    other = (b"Bar", b"x")
    r, s = run(kind, where, [(name, value), other] if first else [other, (name, value)])
    notes = [x for x in r.notes if type(x).__name__ == "FIELD_TOO_LARGE"]
    if where == "trailers":
        notes = notes[1:]  # the header's
    chk.eq([x.subject for x in notes], ["offset-0" if first else "offset-1"] if total > 8192 else [], "lines of more than 8K are reported")
    if notes:
        chk.eq(notes[0].vars["field_size"], str(total), "size shown")
        chk.reach("large line")
    chk.eq(s.size, total + 4, "size of the section")
    chk(not lib.has(r, "FIELD_SECTION_TOO_LARGE"), "sections under 32K aren't reported")


def section(inp, chk, where, lines):
    """Sections around 32K, made of several lines."""
    kind = inp.choice("kind", ["request", "response"])
    delta = inp.choice("delta", [-1, 0, 1, 2, 9000])
    name = inp.choice("name", [b"Foo", b"Age", b"Cookie", b"bad name"])
    total = 32768 + delta
    fields, left = [], total
    for i in range(lines):
        size = total // lines if i < lines - 1 else left
        left -= size
        fields.append((name, b"a" * (size - len(name) - 1) + (inp.bytes("v", 1) if i == 0 and name == b"Foo" else b"b")))
    r, s = run(kind, where, fields)
    chk.eq(s.size, total, "size of the section")
    notes = [x for x in r.notes if type(x).__name__ == "FIELD_SECTION_TOO_LARGE"]
    chk.eq(len(notes), 1 if total > 32768 else 0, "sections of more than 32K are reported once")
    if notes:
        chk.eq(str(notes[0].vars["section_size"]), str(total), "size shown")
        chk.eq(str(notes[0].vars["field_type"]), "trailer" if where == "trailers" else "header", "kind of section")
        chk.reach("large section")


def many(inp, chk, where):
    """Sections of many lines, one of them with an arbitrary octet."""
    kind = inp.choice("kind", ["request", "response"])
    n = inp.choice("lines", MANY)
    name = inp.choice("name", [b"Foo", b"Link", b"Via", b"Age", b"Set-Cookie", b"bad name"])
    at = inp.choice("at", [0, n // 2, n - 1])
    w = inp.bytes("w", 1)
    fields = [(b"X-" + str(i).encode(), b"v%d" % i) if i % 3 == 0 else (name, b"a") for i in range(n)]
    fields[at] = (b"Foo", w)
    r, s = run(kind, where, fields)
    chk.eq(s.text, [(k.decode("ascii"), v.decode("latin-1")) for k, v in fields], "every field line is recorded, however many there are")
    chk.eq(s.size, sum([len(k) + len(v) for k, v in fields]), "size of the section")
    got = [x.subject for x in r.notes if type(x).__name__ == "FIELD_VALUE_ENCODING"]
    if where == "trailers":
        got = got[1:]  # the header's
    chk.eq(got, ["offset-" + str(at)] if w[0] > 127 else [], "non-ASCII values are reported on their lines")
    chk.eq(lib.count(r, "FIELD_NAME_BAD_SYNTAX"), len([1 for k, v in fields if k == b"bad name"]), "each line's name is judged")
    chk.reach("many")


MANY = [4, 10, 33, 65, 101, 129, 257, 600]


def repeated(inp, chk, n):
    """Fields that occur only once in a message are reported when repeated, and the first one is used."""
    name, a, b, want = inp.choice("name", SINGLE)
    k = inp.choice("k", range(1, 4))
    other = inp.choice("between", [True, False])
    junk = inp.bytes("junk", n, alphabet=[c for c in range(33, 127)])
    fields = [(name, a)] + [(b"Foo", b"1")] * (1 if other else 0) + [(name.lower(), b)] * (k - 1)
    if inp.choice("junk last", [True, False]):
        fields.append((name.upper(), junk))
        k += 1
    kind = "request" if name in REQ else "response"
    r, s = run(kind, "headers", fields)
    key = name.decode("ascii").lower()
    notes = [x for x in r.notes if type(x).__name__ == "SINGLE_HEADER_REPEAT"]
    chk.eq([(x.subject, x.vars["field_name"].lower()) for x in notes], [("field-" + key, key)] if k > 1 else [], "repeated singletons are reported once")
    chk.eq(str(s.parsed[key]), want, "the first one is used")


def first(inp, chk, name, n):
    """Whatever the first line is, a repeated singleton means and is judged the same as with that line only."""
    kind = "request" if name in seeds.REQUEST else "response"
    values = seeds.REQUEST.get(name) or seeds.RESPONSE[name]
    v = inp.bytes("v", n) if n >= 0 else values[0][:len(values[0]) // 2] + inp.bytes("v", 1) + values[0][len(values[0]) // 2 + 1:]
    second = inp.choice("second", [b"", b"a b"] + values)
    some = [(name.encode(), v)]
    r, s = run(kind, "headers", some + [(b"Foo", b"1"), (name.upper().encode(), second)])
    alone, t = run(kind, "headers", some)
    chk.eq(plain(s.parsed[name]), plain(t.parsed[name]), "the first one is used")
    notes = [x for x in r.notes if x.subject != "offset-2"]
    got = [[type(x).__name__, x.subject, plain(x.vars)] for x in notes if type(x).__name__ != "SINGLE_HEADER_REPEAT"]
    chk.eq(got, [[type(x).__name__, x.subject, plain(x.vars)] for x in alone.notes], "the first one is judged")
    chk.eq(len(notes) - len(got), 1, "repeated singletons are reported once")
    chk.reach("first")


# fields that occur once in a message (X-Frame-Options' and Cross-Origin-Resource-Policy's standards have other rules for more lines)
ONCE = ["access-control-allow-credentials", "access-control-allow-origin", "access-control-max-age", "access-control-request-method", "age", "authorization", "content-disposition", "content-length",
        "content-location", "content-range", "content-type", "date", "etag", "expires", "from", "host", "if-modified-since", "if-range", "if-unmodified-since", "last-modified", "location", "max-forwards",
        "origin", "proxy-authorization", "range", "referer", "retry-after", "strict-transport-security", "sunset", "user-agent"]


REQ = [b"Max-Forwards", b"Host", b"Referer"]
SINGLE = [
    (b"Age", b"1", b"2", "1"), (b"Content-Length", b"0", b"5", "0"), (b"Access-Control-Max-Age", b"10", b"0", "10"), (b"Content-Type", b"text/html", b"a/b", "('text/html', {})"),
    (b"Max-Forwards", b"3", b"4", "3"), (b"Host", b"a.b", b"c.d", "a.b"), (b"Location", b"http://a.b/", b"http://c.d/", "http://a.b/"),
    (b"Referer", b"http://a.b/", b"http://c.d/", "http://a.b/"), (b"Date", b"Mon, 04 Jul 2011 09:08:06 GMT", b"Mon, 04 Jul 2011 09:08:07 GMT", "1309770486"),
    (b"Last-Modified", b"Mon, 04 Jul 2011 09:08:06 GMT", b"0", "1309770486"), (b"Expires", b"Mon, 04 Jul 2011 09:08:06 GMT", b"0", "1309770486"),
]


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for where in ("headers", "trailers"):
        for n in (0, 1) if not deep else (0, 1, 2):
            out.append({"func": "record", "params": {"where": where, "n": n}})
        for n in (0, 1, 2):
            out.append({"func": "names", "params": {"where": where, "n": n}})
        out.append({"func": "many", "params": {"where": where}})
        out.append({"func": "sizes", "params": {"where": where}})
        for lines in (5, 6, 9) if not deep else (5, 6, 7, 9, 40):
            out.append({"func": "section", "params": {"where": where, "lines": lines}})
    for n in (0, 1) if not deep else (0, 1, 2, 3):
        out.append({"func": "repeated", "params": {"n": n}})
    for name in ONCE:
        for n in (-1, 0, 1) if not deep else (-1, 0, 1, 2, 3):
            out.append({"func": "first", "params": {"name": name, "n": n}})
    return out


BUDGET = {"quick": 90, "thorough": 500}
BOUNDS = {
    "quick": "headers and trailers of requests and responses: three lines over 9 names (known, unknown, misplaced, invalid, repeated) with values of 0-1 arbitrary bytes; names of 0-2 arbitrary bytes; single lines of 192, 8191-8194 and 13192 bytes; sections of 32767-32770 and 41768 bytes in 5, 6 and 9 lines; sections of up to 600 lines, one of them with any octet; 11 singleton fields repeated up to 4 times; 30 whose first line is any of 0-1 octets or a valid value with any one octet replaced, and whose second is blank, invalid or valid",
    "thorough": "as quick with values of 2 bytes and up to 40 lines; repeated singletons with any first line of 2-3 octets",
}
OUTSIDE = "grouping of digits in other locales"
MUST_REACH = ["many", "first", "non-ascii", "large line", "large section"]
