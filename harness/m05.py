"""M05: preflights and origins (CORS) are judged as the Fetch standard has it."""
import re

from harness import lib

PRINT = [c for c in range(32, 127)]
SCHEME = re.compile("[A-Za-z][A-Za-z0-9+.-]*")
PREFLIGHT_ONLY = ["Access-Control-Allow-Headers", "Access-Control-Allow-Methods", "Access-Control-Max-Age"]
HOST_CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;="
HEX = "0123456789ABCDEFabcdef"


def host_valid(h):
    """reg-name (and so IPv4address); IP literals are given."""
    if h in ("[::1]", "[2001:db8::a]"):
        return True
    i = 0
    while i < len(h):
        c = h[i]
        if c == "%":
            if i + 2 >= len(h) or not (h[i + 1] in HEX and h[i + 2] in HEX):
                return False
            i += 3
        elif c in HOST_CHARS:
            i += 1
        else:
            return False
    return True


def read_origin(v):
    """(scheme, host, port) of a serialized origin, or None."""
    i = v.find("://")
    if i < 0 or not SCHEME.fullmatch(v[:i]):
        return None
    rest = v[i + 3:]
    end = rest.find("]") + 1
    j = rest.find(":", end)
    port = None
    if j >= 0:
        for c in rest[j + 1:]:
            if c not in "0123456789":
                return None
        if rest[j + 1:]:
            port = int(rest[j + 1:])
        rest = rest[:j]
    if not host_valid(rest):
        return None
    return (v[:i].lower(), rest.lower(), port)


def serial(o):
    return o[0] + "://" + o[1] + ("" if o[2] is None else ":" + str(o[2]))


def judge_origin(inp, chk, v):
    r = lib.request([(b"Origin", v)])
    text = v.decode("ascii").strip(" ")
    inp.assume(text != "")
    first = text.split(" ")[0]
    want = read_origin(first)
    many = " " in text
    null = text == "null"
    chk.eq(lib.count(r, "ORIGIN_MULTIPLE_VALUES"), 1 if many else 0, "more than one origin is reported")
    chk.eq(lib.count(r, "BAD_ORIGIN_SYNTAX"), 1 if want is None and not null else 0, "what isn't an origin is reported, and no other value")
    got = r.headers.parsed["origin"]
    if want is None:
        chk(got is None, "what isn't an origin has no value")
        if not null:
            chk.eq(lib.find(r, "BAD_ORIGIN_SYNTAX").vars["value"], first, "the faulty origin is shown")
            chk.reach("bad")
        else:
            chk.reach("null")
    else:
        chk.eq([got.scheme, got.host], [want[0], want[1]], "scheme and host of an origin")
        if want[2] is None:
            chk(got.port is None, "no port")
        else:
            chk.eq(got.port, want[2], "port of an origin")
        chk.reach("good")


def origin(inp, chk, n):
    judge_origin(inp, chk, inp.bytes("v", n, alphabet=PRINT))


def origin_edit(inp, chk, base, i, delete, insert):
    b = base.encode()
    judge_origin(inp, chk, b[:i] + inp.bytes("w", insert, alphabet=PRINT) + b[i + delete:])


def preflight(inp, chk, base, i, n):
    """Requests and responses with and without the fields that matter, and methods near OPTIONS."""
    b = base.encode()
    method = b[:i] + inp.bytes("w", n, alphabet=[c for c in range(33, 127)]) + b[i + n:] if n else b
    qh, rh = [], []
    origin_ = inp.choice("origin", [None, b"http://a.example", b"null", b"x y"])
    if origin_ is not None:
        qh.append((inp.choice("on", [b"Origin", b"origin"]), origin_))
    acrm = inp.bool("acrm")
    if acrm:
        qh.append((b"Access-Control-Request-Method", b"PUT"))
    acrh = inp.bool("acrh")
    if acrh:
        qh.append((b"access-control-request-headers", b"a, B"))
    if n == 0:
        here = [inp.bool(f"r{k}") for k in range(3)]
        if here[0]:
            rh.append((b"Access-Control-Allow-Headers", b"A, b"))
        if here[1]:
            rh.append((b"access-control-allow-methods", b"GET, Put"))
        if here[2]:
            rh.append((b"Access-Control-Max-Age", b"10"))
        rh.append((b"Access-Control-Expose-Headers", b"a"))
    else:
        here = [True, False, True]
        rh = [(b"Access-Control-Allow-Headers", b"A, b"), (b"Access-Control-Max-Age", b"10")]
    q = lib.request(qh, method=method)
    options = method == b"OPTIONS"
    is_preflight = options and origin_ is not None and acrm
    chk.eq(lib.count(q, "CORS_PREFLIGHT_REQUEST"), 1 if is_preflight else 0, "OPTIONS requests with Origin and Access-Control-Request-Method are preflights, and no others")
    some = acrm or acrh
    chk.eq(lib.count(q, "CORS_PREFLIGHT_REQ_METHOD_WRONG"), 1 if some and not options else 0, "preflight fields with another method are reported")
    chk.eq(lib.count(q, "CORS_PREFLIGHT_REQ_NO_ORIGIN"), 1 if some and origin_ is None else 0, "preflight fields without an origin are reported")
    chk.eq(lib.count(q, "CORS_PREFLIGHT_REQ_NO_METHOD"), 1 if acrh and not acrm else 0, "Access-Control-Request-Headers without Access-Control-Request-Method is reported")
    name = "Access-Control-Request-Method" if acrm else "Access-Control-Request-Headers"
    for kind in ("CORS_PREFLIGHT_REQ_METHOD_WRONG", "CORS_PREFLIGHT_REQ_NO_ORIGIN"):
        note = lib.find(q, kind)
        if note is not None:
            chk.eq(note.vars["field_name"], name, "the field in the request is named")
    note = lib.find(q, "CORS_PREFLIGHT_REQ_METHOD_WRONG")
    if note is not None:
        chk.eq(note.vars["method"], method.decode(), "the method is named")
    if acrh:
        chk.eq(q.headers.parsed["access-control-request-headers"], ["a", "b"], "field names are compared in lower case")
    related = inp.bool("related")
    r = lib.response(rh, req=q if related else None)
    pre = related and is_preflight
    chk.eq(lib.count(r, "CORS_PREFLIGHT_RESPONSE"), 1 if pre else 0, "responses to preflights are recognised, and no others")
    wrong = [PREFLIGHT_ONLY[k] for k in range(3) if here[k]]
    chk.eq(lib.count(r, "CORS_PREFLIGHT_ONLY"), 1 if wrong and not pre else 0, "fields for preflights elsewhere are reported")
    if wrong and not pre:
        chk.eq(sorted(lib.find(r, "CORS_PREFLIGHT_ONLY").vars["headers"].split(", ")), sorted(wrong), "those fields are named")
        chk.reach("misplaced")
    if here[0]:
        chk.eq(r.headers.parsed["access-control-allow-headers"], ["a", "b"], "field names are compared in lower case")
    if here[1]:
        chk.eq(r.headers.parsed["access-control-allow-methods"], ["GET", "Put"], "methods' case is kept")
    if pre:
        chk.reach("preflight")


def access(inp, chk, o, base, i, delete, insert):
    """A request with an Origin, and a response that allows one near it."""
    b = base.encode()
    v = b[:i] + inp.bytes("w", insert, alphabet=PRINT) + b[i + delete:]
    req = lib.request([] if o is None else [(b"Origin", o.encode())])
    r = lib.response([(b"Access-Control-Allow-Origin", v)], req=req)
    text = v.decode("ascii").strip(" ")
    inp.assume(text != "")
    kinds = ["CORS_ORIGIN_NULL", "CORS_ORIGIN_STAR", "CORS_ORIGIN_MATCH", "CORS_ORIGIN_MISMATCH"]
    got = [type(n).__name__ for n in r.notes if type(n).__name__ in kinds]
    parsed = None
    mine = None
    if o is not None:
        parsed = read_origin(o.split(" ")[0])
        mine = serial(parsed) if parsed is not None else o if o == "null" else None
    if mine is None:
        chk.eq(got, [], "nothing is said about access without a (valid) origin")
    elif text == mine:
        chk.eq(got, ["CORS_ORIGIN_MATCH"], "an origin that's allowed is reported so")
        chk.eq(lib.find(r, "CORS_ORIGIN_MATCH").vars["origin"], mine, "the origin is shown")
        chk.reach("match")
    elif text == "*":
        chk.eq(got, ["CORS_ORIGIN_STAR"], "* allows any origin")
    elif text == "null":
        chk.eq(got, ["CORS_ORIGIN_NULL"], "null allows none")
    else:
        chk.eq(got, ["CORS_ORIGIN_MISMATCH"], "an origin that isn't allowed is reported so")
        n = lib.find(r, "CORS_ORIGIN_MISMATCH")
        chk.eq([n.vars["origin"], n.vars["acao_value"]], [mine, text], "both origins are shown")
        chk.reach("mismatch")
    chk.eq(lib.count(r, "ACAO_MULTIPLE_VALUES"), 1 if " " in text or "," in text else 0, "more than one origin is reported, and no others")


def alone(inp, chk, n):
    """Access-Control-Allow-Origin without a request."""
    v = inp.bytes("v", n, alphabet=PRINT)
    text = v.decode("ascii").strip(" ")
    r = lib.response([(b"access-control-allow-origin", v)])
    chk.eq(lib.count(r, "ACAO_MULTIPLE_VALUES"), 1 if " " in text or "," in text else 0, "more than one origin is reported, and no others")
    for n in r.notes:
        chk(not type(n).__name__.startswith("CORS_"), "nothing is said about access without a request")


def max_age(inp, chk, n):
    v = inp.bytes("v", n, alphabet=PRINT)
    r = lib.response([(b"Access-Control-Max-Age", v)])
    text = v.decode("ascii").strip(" ")
    inp.assume(text != "" and text != "-0" and text != "-00" and text != "-000" and text != "-0000")
    body = text[1:] if text[:1] == "-" else text
    digits = len(body) > 0
    for c in body:
        if c not in "0123456789":
            digits = False
    chk.eq(lib.count(r, "CORS_MAX_AGE_INVALID"), 0 if digits else 1, "what isn't a number of seconds is reported, and no others")
    chk.eq(lib.count(r, "CORS_MAX_AGE_NEGATIVE"), 1 if digits and text[:1] == "-" else 0, "negative numbers are reported, and no others")
    got = r.headers.parsed["access-control-max-age"]
    if digits and text[:1] != "-":
        chk.eq(got, int(text), "the number of seconds")
        chk.reach("seconds")
    else:
        chk(got is None, "no number of seconds")


def ports(inp, chk, host, n, m):
    """Origins with any ports (the default ones included, which browsers leave out)."""
    a, b = inp.bytes("a", n, alphabet="0123456789"), inp.bytes("b", m, alphabet="0123456789")
    inp.assume((n == 0 or a[0] != 48) and (m == 0 or b[0] != 48))
    mine = host.encode() + (b":" + a if n else b"")
    theirs = host.encode() + (b":" + b if m else b"")
    r = lib.response([(b"Access-Control-Allow-Origin", theirs)], req=lib.request([(b"Origin", mine)]))
    chk.eq([lib.count(r, "CORS_ORIGIN_MATCH"), lib.count(r, "CORS_ORIGIN_MISMATCH")], [1, 0] if mine == theirs else [0, 1], "origins are the same if their ports are")
    chk.reach("ports")


def credentials(inp, chk, i, delete, insert):
    b = b"true"
    v = b[:i] + inp.bytes("w", insert, alphabet=PRINT) + b[i + delete:]
    r = lib.response([(b"Access-Control-Allow-Credentials", v)])
    text = v.decode("ascii").strip(" ")
    ok = text == "true"
    chk.eq(lib.count(r, "BAD_SYNTAX"), 0 if ok else 1, "any value but true is reported")
    if ok:
        chk.eq(r.headers.parsed["access-control-allow-credentials"], "true", "true")
        chk.reach("true")
    else:
        chk(r.headers.parsed["access-control-allow-credentials"] is None, "any value but true has no meaning")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    k = 3 if deep else 2
    for n in range(1, 5 if deep else 4):
        out.append(dict(func="origin", params=dict(n=n), weight=n))
        out.append(dict(func="alone", params=dict(n=n)))
        out.append(dict(func="max_age", params=dict(n=n)))
    for base in ["http://a", "HTTPS://Ex.Co:443", "a+b.c-d://", "http://[::1]:80", "null", "http://a http://b"]:
        for i in range(len(base) + 1):
            for d in range(0, 2):
                for ins in range(0, k + 1):
                    if (d or ins) and i + d <= len(base):
                        if "[" in base and (base.find("[") < i + d and i <= base.find("]")):
                            continue
                        out.append(dict(func="origin_edit", params=dict(base=base, i=i, delete=d, insert=ins), weight=1 + ins))
    for base in ["OPTIONS", "GET"]:
        out.append(dict(func="preflight", params=dict(base=base, i=0, n=0), weight=3))
        for i in range(len(base)):
            out.append(dict(func="preflight", params=dict(base=base, i=i, n=1), weight=3))
            if deep and i + 2 <= len(base):
                out.append(dict(func="preflight", params=dict(base=base, i=i, n=2), weight=3))
    for o, bases in [("http://a.b:8", ["http://a.b:8", "*", "null"]), ("https://A", ["https://a", "https://A"]), ("null", ["null", "*"]), (None, ["*", "null"]), ("foo", ["foo", "null"]), ("http://a http://b", ["http://a", "http://a http://b"])]:
        for base in bases:
            for i in range(len(base) + 1):
                for d in range(0, 2):
                    for ins in range(0, k):
                        if i + d <= len(base) and (d or ins):
                            out.append(dict(func="access", params=dict(o=o, base=base, i=i, delete=d, insert=ins)))
    for host in ("http://a", "https://a.b", "ws://[::1]"):
        for n, m in [(2, 0), (3, 0), (0, 2), (0, 3), (2, 2), (1, 2), (3, 3)] + ([(5, 5), (4, 4), (5, 0)] if deep else []):
            out.append(dict(func="ports", params=dict(host=host, n=n, m=m)))
    for i in range(5):
        for d in range(2):
            for ins in range(k + 1):
                if i + d <= 4:
                    out.append(dict(func="credentials", params=dict(i=i, delete=d, insert=ins)))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["bad", "good", "null", "misplaced", "preflight", "match", "mismatch", "seconds", "true", "ports"]
BOUNDS = {
    "quick": "Origin, Access-Control-Allow-Origin and Access-Control-Max-Age of up to 3 arbitrary printable characters, and six origins with one character replaced or deleted and up to 2 inserted at any position; every combination of a preflight's fields with and without the request, for methods with any character replaced; allowed origins with one character replaced, deleted or inserted, for 6 origins; 3 origins with any port of up to 3 digits, or none, on either side",
    "thorough": "the same with values of up to 4 characters, insertions of up to 3 characters (allowed origins: 2), ports of up to 5 digits, and methods with 2 characters replaced",
}
OUTSIDE = "IP literals other than [::1] and [2001:db8::a] (their syntax is F04's); characters outside ASCII; Access-Control-Max-Age: -0; credentialed requests (not visible to the linter)"
ASSUMPTIONS = ["fields are fed to the linter after the response is associated with its request"]
