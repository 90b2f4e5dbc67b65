"""P01: cookies are parsed as browsers do, and their problems reported."""
import re

from harness import fields, lib
from harness.lib import HttpResponseLinter

NOW = 1309770000
DAY = 86400
BASES = ["http://www.example.com/a/b/c?d=/e/f", "http://www.example.com/a", "http://www.example.com", "http://www.example.com/a/"]
DEFAULTS = {BASES[0]: "/a/b", BASES[1]: "/", BASES[2]: "/", BASES[3]: "/a"}


def cookies(lines, base_uri="", now=NOW):
    r = HttpResponseLinter(start_time=now)
    if base_uri:
        r.base_uri = base_uri
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    r.process_headers([(b"Set-Cookie", v) for v in lines])
    r.finish_content(True)
    return r


def reported(r):
    return sorted([n[11:] for n, _ in lib.names(r) if n.startswith("SET_COOKIE_")])


def lower(text):
    return text.lower()


def judge(name, attrs, base_uri, now):
    """(the attributes that matter, the notes) of a cookie's attributes, as (name, value) pairs; RFC 6265 section 5.2."""
    out, notes, seen, long = [], [], [], False
    for raw, value in attrs:
        key = lower(raw)
        if key in seen:
            notes.append("ATTRIBUTE_DUP")
        seen.append(key)
        if key == "expires":
            when = EXPIRES.get(value)
            if when is None:
                notes.append("BAD_DATE")
                continue
            out.append(["Expires", when])
            if now is not None and when - now > 400 * DAY:
                long = True
        elif key == "max-age":
            digits = re.fullmatch("[0-9]+", value)
            if value == "":
                notes.append("EMPTY_MAX_AGE")
                continue
            if value[0] == "0" and len(value) > 1:
                notes.append("LEADING_ZERO_MAX_AGE")
            if not digits:
                notes.append("NON_DIGIT_MAX_AGE")
                continue
            out.append(["Max-Age", int(value)])
            if int(value) > 400 * DAY:
                long = True
        elif key == "domain":
            if value == "":
                notes.append("EMPTY_DOMAIN")
                continue
            out.append(["Domain", value[1:] if value[0] == "." else value])
        elif key == "path":
            out.append(["Path", value if value[:1] == "/" else DEFAULTS.get(base_uri, "/")])
        elif key == "secure":
            out.append(["Secure", ""])
        elif key == "httponly":
            out.append(["HttpOnly", ""])
        elif key == "partitioned":
            out.append(["Partitioned", ""])
        elif key == "samesite":
            v = lower(value)
            if v == "strict":
                out.append(["SameSite", "Strict"])
            elif v == "none":
                out.append(["SameSite", "None"])
            elif v == "lax" or v == "":
                out.append(["SameSite", "Lax"])
            else:
                notes.append("UNKNOWN_ATTRIBUTE_VALUE")
        elif key == "priority":
            notes.append("PRIORITY")
        elif key == "version":
            notes.append("VERSION")
        else:
            notes.append("UNKNOWN_ATTRIBUTE")
    if long:
        notes.append("LIFETIME_TOO_LONG")
    secure = ["Secure", ""] in out
    site = [v for k, v in out if k == "SameSite"][-1:]  # RFC 6265 section 5.3: the last of repeated attributes is used
    if site == ["None"] and not secure:
        notes.append("NOT_SECURE")
    if ["Partitioned", ""] in out and not secure:
        notes.append("PARTITIONED_NO_SECURE")
    prefix = lower(name)
    host = prefix[:7] == "__host-"
    if (host or prefix[:9] == "__secure-") and not secure:
        notes.append("PREFIX_SECURE_MISSING")
    if host:
        if [v for k, v in out if k == "Path"][-1:] != ["/"]:
            notes.append("PREFIX_HOST_BAD_PATH")
        notes.extend(["PREFIX_HOST_BAD_DOMAIN" for k, v in out if k == "Domain"])
    if secure and ["HttpOnly", ""] in out and (site == ["Strict"] or site == ["Lax"]):
        notes.append("HARDENED")
    return out, notes


EXPIRES = {
    "Thu, 07 Jul 2011 09:00:00 GMT": NOW + 3 * DAY,
    "Tue, 07 Aug 2012 09:00:00 GMT": NOW + 400 * DAY,
    "Tue, 07 Aug 2012 09:00:01 GMT": NOW + 400 * DAY + 1,
    "Sun, 06 Nov 1994 08:49:37 GMT": 784111777,
}


def check(chk, inp, r, want):
    """`want`: name, value, attributes as sent, of each cookie."""
    values, notes = [], []
    for name, value, attrs, base_uri, now in want:
        if name == "" and value == "":
            notes.append("NO_NAME")
            continue
        out, ns = judge(name, attrs, base_uri, now)
        values.append([name, value, out])
        notes.extend(ns)
    hardened = [n for n in notes if n == "HARDENED"]
    notes = [n for n in notes if n != "HARDENED"] + hardened[:1]
    got = [[n, v, [[k, w] for k, w in a]] for n, v, a in (r.headers.parsed.get("set-cookie") or [])]
    chk.eq(got, values, "cookies are what was set")
    chk.eq(reported(r), sorted(notes), "the cookie's problems, and only those, are reported")


# --- the syntax


def reference(text):
    """(name, value, attributes) of a Set-Cookie value (ASCII, with spaces for white space)."""
    parts = text.split(";")
    pair = parts[0]
    if "=" in pair:
        i = pair.index("=")
        name, value = pair[:i].strip(" "), pair[i + 1:].strip(" ")
    else:
        name, value = "", pair.strip(" ")
    attrs = []
    rest = parts[1:]
    for i in range(len(rest)):
        p = rest[i]
        if i == len(rest) - 1 and p == "":
            continue  # nothing after the last ';'
        if "=" in p:
            j = p.index("=")
            attrs.append([p[:j].strip(" "), p[j + 1:].strip(" ")])
        else:
            attrs.append([p.strip(" "), ""])
    return name, value, attrs


def syntax(inp, chk, n, start):
    """Any short text."""
    text = start + inp.text("text", n, alphabet="aB1=; /.\"")
    inp.assume(text[-1] != " ")
    inp.assume(text[0] != " ")
    r = cookies([text.encode()], BASES[0])
    name, value, attrs = reference(text)
    check(chk, inp, r, [(name, value, attrs, BASES[0], NOW)])
    if "=" in text and ";" in text:
        chk.reach("syntax")


# --- attributes

KINDS = ["expires", "max-age", "domain", "path", "secure", "httponly", "partitioned", "samesite", "priority", "version", "other"]
NAMES = ["sid", "__Secure-sid", "__Host-sid", "__secure-sid", "__HOST-sid", "__Hostsid", "x__Host-sid"]


def attribute(inp, i, kind, plain):
    """One attribute: its name (in any case, unless plain), and value."""
    k = "a" + str(i)
    if kind == "expires":
        return "Expires", inp.choice(k, sorted(EXPIRES) + ([] if plain else ["", "foo"]))
    if kind == "max-age":
        return "Max-Age", inp.choice(k, ["0", "60", "34560000", "34560001"])
    if kind == "domain":
        return "Domain", inp.choice(k, ["", "example.com", ".example.com"])
    if kind == "path":
        return "Path", inp.choice(k, ["/", "/foo", "", "foo"])
    if kind == "samesite":
        return "SameSite", inp.choice(k, ["Strict", "LAX", "none", "", "foo"])
    if kind in ("secure", "httponly", "partitioned"):
        return {"secure": "Secure", "httponly": "HttpOnly", "partitioned": "Partitioned"}[kind], inp.choice(k, ["", "foo"]) if not plain else ""
    if kind == "other":
        return inp.choice(k, ["foo", "samesit", "max-ages"]), "1"
    return kind.capitalize(), "1"


def write(attrs, tight):
    sep, eq = (";", "=") if tight else ("; ", " = ")
    return "".join([sep + n + (eq + v if v else "") for n, v in attrs])


def several(inp, chk, kinds, tight=False):
    """Attributes of these kinds, in this order, with each kind of name."""
    name = inp.choice("name", NAMES)
    base = inp.choice("base", BASES if "path" in kinds else BASES[:1])
    now = inp.choice("now", [NOW, None] if "expires" in kinds else [NOW])
    attrs = [attribute(inp, i, k, True) for i, k in enumerate(kinds)]
    r = cookies([(name + "=1" + write(attrs, tight)).encode()], base, now)
    check(chk, inp, r, [(name, "1", attrs, base, now)])
    chk.reach("several")


ANY = [["Expires", ""], ["Max-Age", "60"], ["Max-Age", "34560001"], ["max-age", "1a"], ["Domain", "example.com"], ["Domain", ""], ["Path", "/"], ["path", "/foo"], ["Secure", ""], ["HttpOnly", ""],
       ["Partitioned", ""], ["SameSite", "lax"], ["samesite", "None"], ["SameSite", "foo"], ["Priority", "High"], ["Version", "1"], ["foo", "bar"]]


def mixed(inp, chk, first, count):
    """Any attributes, each of which can affect what's reported about the others."""
    far = [e for e in sorted(EXPIRES) if EXPIRES[e] is not None and EXPIRES[e] > NOW + 34560000][0]
    table = ANY + [["expires", far]]
    attrs = [table[first]] + [inp.choice("a" + str(i), table) for i in range(1, count)]
    name = inp.choice("name", ["sid", "__Host-sid"] if count < 4 else ["__Host-sid"])
    r = cookies([(name + "=1" + write(attrs, False)).encode()], BASES[0])
    check(chk, inp, r, [(name, "1", attrs, BASES[0], NOW)])
    chk.reach("mixed")


def last(inp, chk):
    """Repeated attributes, of which the last is used."""
    sites, paths = ["Strict", "LAX", "none", ""], ["/", "/a", ""]
    name = inp.choice("name", ["sid", "__Host-sid"])
    attrs = [["SameSite", inp.choice("s0", sites)], ["HttpOnly", ""], ["Path", inp.choice("p0", paths)], ["samesite", inp.choice("s1", sites)], ["path", inp.choice("p1", paths)]]
    if inp.bool("secure"):
        attrs.insert(inp.choice("at", [0, len(attrs)]), ["Secure", ""])
    r = cookies([(name + "=1" + write(attrs, False)).encode()], BASES[0])
    check(chk, inp, r, [(name, "1", attrs, BASES[0], NOW)])
    chk.reach("last")


def cased(inp, chk, kind):
    """An attribute's name in any case."""
    name, value = attribute(inp, 0, kind, False)
    wire = fields.anycase(inp, name)
    r = cookies([b"sid=1; " + wire + (b"=" + value.encode() if value else b"")], BASES[0])
    check(chk, inp, r, [("sid", "1", [[name, value]], BASES[0], NOW)])
    chk.reach("cased")


def value(inp, chk, kind, n):
    """An attribute with any value."""
    text = inp.text("value", n, alphabet={"max-age": "0123456789-+.a ", "domain": "a.-1", "path": "/a ?=", "samesite": "LAXlaxNOEnoe-"}[kind])
    if n:
        inp.assume(text[0] != " ")
        inp.assume(text[-1] != " ")
    r = cookies([b"sid=1; " + kind.encode() + b"=" + text.encode()], BASES[0])
    check(chk, inp, r, [("sid", "1", [[kind, text]], BASES[0], NOW)])
    chk.reach("value-" + kind)


def named(inp, chk, n):
    """A cookie with any name, which can start like a prefix."""
    name = inp.text("name", n, alphabet="_SsHhECURecuroOStT-x")
    secure = inp.bool("secure")
    attrs = [["Secure", ""]] if secure else []
    attrs.append(["Path", inp.choice("path", ["/", "/a"])])
    r = cookies([(name + "=1").encode() + write(attrs, False).encode()], BASES[0])
    check(chk, inp, r, [(name, "1", attrs, BASES[0], NOW)])
    chk.reach("named")


def pair(inp, chk, n):
    """Several cookies: their names are compared exactly."""
    texts = [inp.text("name" + str(i), n, alphabet="aAb") for i in range(3)]
    secure = [inp.bool("hard" + str(i)) for i in range(3)]
    r = cookies([(texts[i] + "=" + str(i) + ("; secure; httponly; samesite=lax" if secure[i] else "")).encode() for i in range(3)], BASES[0])
    dup = []
    for t in texts:
        if [t == u for u in texts].count(True) > 1 and t not in dup:
            dup.append(t)
    chk.eq(lib.count(r, "SET_COOKIE_NAME_DUP"), 1 if dup else 0, "cookies with the same name are reported")
    if dup:
        chk.eq(lib.find(r, "SET_COOKIE_NAME_DUP").vars["cookie_names"], ", ".join(sorted(dup)), "their names are reported")
        chk.reach("dup")
    hard = [texts[i] for i in range(3) if secure[i]]
    chk.eq(lib.count(r, "SET_COOKIE_HARDENED"), 1 if hard else 0, "hardened cookies are noticed")
    chk.eq(len(r.headers.parsed["set-cookie"]), 3, "each cookie has a value")
    if hard:
        chk.eq(str(lib.find(r, "SET_COOKIE_HARDENED").vars["cookie_names"]), ", ".join(["`" + t + "`" for t in hard]), "the hardened ones are named")


def sent(inp, chk, n, lines):
    """Cookie, in requests: pairs between semicolons; what has no "=" is a value."""
    values = [inp.bytes("v" + str(i), n, alphabet="a= ;%\"") for i in range(lines)]
    want = []
    for v in values:
        pairs = []
        for item in v.decode("latin-1").split(";"):
            item = item.strip(" ")
            m = re.fullmatch("([^=]*)=(.*)", item)
            if m:
                pairs.append([m.group(1), m.group(2)])
            elif item:
                pairs.append(["", item])
        want.append(pairs)
    r = lib.request([(b"Cookie", v) for v in values])
    got = [[[p.name, p.value] for p in line] for line in r.headers.parsed["cookie"]]
    chk.eq(got, want, "the cookies that a request has")
    chk.reach("sent")


def many(inp, chk, what):
    """Many attributes, cookies, or pairs."""
    n = inp.choice("count", [6, 12, 25, 60, 130])
    w = inp.bytes("w", 1, alphabet="abcXYZ019_-").decode("latin-1")
    if what == "attributes":
        # those that matter come first, last, or are spread
        known = [["Max-Age", "60"], ["samesite", "lax"], ["Secure", ""], ["HttpOnly", ""], ["Path", "/" + w], ["Domain", "a.example"]]
        at = [0, n // 2, n][inp.choice("at", [0, 1, 2])]
        foo = [["foo" + str(i), "bar"] for i in range(n)]
        attrs = foo[:at] + known + foo[at:]
        r = cookies([("sid=1" + write(attrs, inp.bool("tight"))).encode()], BASES[0])
        check(chk, inp, r, [("sid", "1", attrs, BASES[0], NOW)])
    elif what == "cookies":
        texts = ["c" + str(i) for i in range(n)]
        at = inp.choice("at", [0, n // 2, n - 1])
        texts[at] = "c" + w
        r = cookies([(t + "=" + str(i) + "; path=/").encode() for i, t in enumerate(texts)], BASES[0])
        chk.eq([[c[0], c[1]] for c in r.headers.parsed["set-cookie"]], [[t, str(i)] for i, t in enumerate(texts)], "every cookie has its value")
        dup = [t for t in texts[:at] + texts[at + 1:] if t == texts[at]]
        chk.eq([x.vars["cookie_names"] for x in lib.all_notes(r) if type(x).__name__ == "SET_COOKIE_NAME_DUP"], dup, "duplicates are found among any number of cookies")
    else:
        at = inp.choice("at", [0, n // 2, n - 1])
        pairs = [["n" + str(i) + (w if i == at else ""), "v" + (w if i == at else "")] for i in range(n)]
        r = lib.request([(b"Cookie", "; ".join([a + "=" + b for a, b in pairs]).encode())])
        chk.eq([[x.name, x.value] for x in r.headers.parsed["cookie"][0]], pairs, "every pair of a request's cookies")
    chk.reach("many-" + what)


def size(inp, chk):
    """Sizes: of the value, and of the name and value together."""
    n = inp.choice("n", [1, 3, 3967, 3968, 3969])
    v = inp.choice("v", [0, 1, 127, 128, 129, 130, 4094, 4095, 4096])
    r = cookies([b"a" * n + b"=" + b"b" * v], BASES[0])
    got = [x for x in reported(r)]
    chk.eq(got, (["TOO_LARGE"] if n + v > 4096 else []) + (["VALUE_TOO_LARGE"] if v > 128 else []), "sizes")
    chk.reach("size")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for start in ("a", "=", "a=b;"):
        for n in (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 4):
            out.append(dict(func="syntax", params=dict(n=n, start=start), weight=9 ** max(n - 3, 0)))
    for a in KINDS:
        out.append(dict(func="cased", params=dict(kind=a)))
        for b in KINDS:
            out.append(dict(func="several", params=dict(kinds=[a, b], tight=a < b)))
    triples = [["secure", "samesite", "httponly"], ["path", "secure", "domain"], ["secure", "path", "samesite"], ["max-age", "expires", "secure"], ["partitioned", "samesite", "secure"], ["expires", "max-age", "expires"]]
    if deep:
        triples = [[a, b, c] for a in KINDS for b in KINDS for c in KINDS if c not in ("version", "priority")]
    for t in triples:
        out.append(dict(func="several", params=dict(kinds=t)))
    for first in range(len(ANY) + 1):
        out.append(dict(func="mixed", params=dict(first=first, count=4 if deep else 3), weight=50))
    for kind, ns in (("max-age", (0, 1, 2, 3, 8)), ("domain", (0, 1, 2, 3)), ("path", (0, 1, 2, 3)), ("samesite", (0, 1, 2, 3, 4, 6))):
        for n in ns:
            out.append(dict(func="value", params=dict(kind=kind, n=n)))
    for n in (6, 7, 8, 9, 10):
        out.append(dict(func="named", params=dict(n=n), weight=3))
    for n in (1, 2) if deep else (1,):
        out.append(dict(func="pair", params=dict(n=n), weight=5))
    out.append(dict(func="last"))
    for what in ("attributes", "cookies", "pairs"):
        out.append(dict(func="many", params=dict(what=what), weight=10))
    out.append(dict(func="size", params={}))
    for n in range(0, 7 if deep else 6):
        out.append(dict(func="sent", params=dict(n=n, lines=1)))
    out.append(dict(func="sent", params=dict(n=2, lines=2)))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["last", "many-attributes", "many-cookies", "many-pairs", "syntax", "mixed", "several", "cased", "named", "dup", "size", "value-max-age", "value-domain", "value-path", "value-samesite"]
BOUNDS = {
    "quick": "any Set-Cookie value of up to 5 characters over 9, and after `a=b;` of up to 4; any pair (and six triples) of the 11 kinds of attribute with values from tables; any three of 18 attributes on two names; two SameSite and Path attributes with values from tables; attribute names in any case; attribute values of up to 8 characters; cookie names of 6 to 10 letters of the prefixes; 3 cookies; up to 136 attributes, cookies and pairs; 45 sizes; any Cookie value of up to 5 characters over 6",
    "thorough": "the same with 6 characters, all triples of the kinds of attribute, and any four of 18 attributes",
}
OUTSIDE = "a SameSite that isn't known after one that is, and repeated Max-Age and Expires; names and values that aren't ASCII; white space other than spaces; attribute values over 1024 characters; Max-Age with a sign; the text of dates (P02)"
ASSUMPTIONS = []
