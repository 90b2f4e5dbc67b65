"""M03: status codes are explained, and judged against the request they answer."""
from harness import lib
from harness.lib import HttpRequestLinter, HttpResponseLinter

DIGITS = "0123456789"
# codes with a note of their own, whatever else the messages say
PLAIN = {
    103: "STATUS_EARLY_HINTS", 104: "STATUS_UPLOAD_RESUMPTION_SUPPORTED", 208: "STATUS_ALREADY_REPORTED", 305: "STATUS_DEPRECATED",
    306: "STATUS_RESERVED", 400: "STATUS_BAD_REQUEST", 403: "STATUS_FORBIDDEN", 404: "STATUS_NOT_FOUND", 409: "STATUS_CONFLICT",
    410: "STATUS_GONE", 413: "STATUS_REQUEST_ENTITY_TOO_LARGE", 414: "STATUS_URI_TOO_LONG", 415: "STATUS_UNSUPPORTED_MEDIA_TYPE",
    418: "STATUS_IM_A_TEAPOT", 421: "STATUS_MISDIRECTED_REQUEST", 425: "STATUS_TOO_EARLY", 428: "STATUS_PRECONDITION_REQUIRED",
    429: "STATUS_TOO_MANY_REQUESTS", 431: "STATUS_REQUEST_HEADER_FIELDS_TOO_LARGE", 451: "STATUS_UNAVAILABLE_FOR_LEGAL_REASONS",
    500: "STATUS_INTERNAL_SERVICE_ERROR", 501: "STATUS_NOT_IMPLEMENTED", 502: "STATUS_BAD_GATEWAY", 503: "STATUS_SERVICE_UNAVAILABLE",
    504: "STATUS_GATEWAY_TIMEOUT", 505: "STATUS_VERSION_NOT_SUPPORTED", 508: "STATUS_LOOP_DETECTED", 511: "STATUS_NETWORK_AUTHENTICATION_REQUIRED",
}
# standard codes (IANA's registry) without one
QUIET = [101, 102, 200, 202, 203, 204, 205, 207, 226, 300, 401, 402, 407, 408, 411, 416, 422, 423, 424, 426, 506, 507, 510]
REDIRECTS = [301, 302, 303, 307, 308]
CONDITIONAL = [100, 201, 206, 304, 405, 406, 412, 417]
OURS = list(PLAIN.values()) + [
    "STATUS_NONSTANDARD", "STATUS_CODE_NON_NUMERIC", "NO_DATE_304", "HEADER_SHOULD_NOT_BE_IN_304", "UNEXPECTED_CONTINUE", "UPGRADE_NOT_REQUESTED",
    "CREATED_SAFE_METHOD", "CREATED_WITHOUT_LOCATION", "PARTIAL_WITHOUT_RANGE", "PARTIAL_NOT_REQUESTED", "REDIRECT_WITHOUT_LOCATION",
    "STATUS_METHOD_NOT_ALLOWED", "STATUS_405_METHOD_IN_ALLOW", "STATUS_NOT_ACCEPTABLE", "STATUS_406_WITHOUT_NEGOTIATION", "STATUS_PRECONDITION_FAILED",
    "STATUS_EXPECTATION_FAILED", "STATUS_412_WITHOUT_PRECONDITION", "STATUS_416_WITHOUT_RANGE", "STATUS_417_WITHOUT_EXPECT", "STATUS_417_WITH_100_CONTINUE",
]
METHODS = [b"GET", b"HEAD", b"OPTIONS", b"TRACE", b"POST", b"PUT", b"DELETE", b"PATCH", b"QUERY"]
SAFE = [b"GET", b"HEAD", b"OPTIONS", b"TRACE"]


def ours(r):
    return sorted([type(n).__name__ for n in r.notes if type(n).__name__ in OURS])


def agree(chk, r, want, what):
    chk.eq(ours(r), sorted(want), what)


def number(inp, chk, n):
    """Any n bytes for a status code."""
    v = inp.bytes("v", n)
    r = HttpResponseLinter(start_time=1000000000)
    r.process_response_topline(b"HTTP/1.1", v, b"OK")
    number_ = True
    total = 0
    for b in v:
        if b >= 48 and b <= 57:
            total = total * 10 + (b - 48)
        else:
            number_ = False
    chk.eq(lib.count(r, "STATUS_CODE_NON_NUMERIC"), 0 if number_ else 1, "status codes that aren't numbers are reported, and no others")
    if number_:
        chk.eq(r.status_code, total, "the status code is the number its digits denote")
        chk.reach("number")
    else:
        chk(r.status_code is None, "what isn't a number isn't a status code")
        if n <= 2:
            r.process_headers([])
            r.finish_content(True)
            chk.eq(lib.count(r, "STATUS_NONSTANDARD"), 1, "what isn't a number isn't a standard status code")
        chk.reach("other")


def phrase(inp, chk, n):
    v = inp.bytes("v", n)
    r = HttpResponseLinter(start_time=1000000000)
    r.process_response_topline(b"HTTP/1.1", b"200", v)
    odd = False
    for b in v:
        if b > 127:
            odd = True
    chk.eq(lib.count(r, "STATUS_PHRASE_ENCODING"), 1 if odd else 0, "status phrases with other characters than ASCII are reported, and no others")


def code(inp, chk, first):
    """Every code, on its own."""
    c = inp.choice("code", [first * 100 + i for i in range(100)])
    req = lib.request([(b"User-Agent", b"a")]) if inp.bool("req") else None
    r = lib.response([], status=str(c).encode(), req=req)
    want = []
    if c in PLAIN:
        want = [PLAIN[c]]
    elif c in REDIRECTS:
        want = ["REDIRECT_WITHOUT_LOCATION"]
    elif c == 101 and req is not None:
        want = ["UPGRADE_NOT_REQUESTED"]
    elif c == 416 and req is not None:
        want = ["STATUS_416_WITHOUT_RANGE"]
    elif c == 100:
        want = [] if req is None else ["UNEXPECTED_CONTINUE"]
    elif c == 201:
        want = ["CREATED_WITHOUT_LOCATION"] + ([] if req is None else ["CREATED_SAFE_METHOD"])
    elif c == 206:
        want = ["PARTIAL_WITHOUT_RANGE"] + ([] if req is None else ["PARTIAL_NOT_REQUESTED"])
    elif c == 304:
        want = ["NO_DATE_304"]
    elif c == 405:
        want = ["STATUS_METHOD_NOT_ALLOWED"]
    elif c == 406:
        want = ["STATUS_NOT_ACCEPTABLE"] if req is None else ["STATUS_406_WITHOUT_NEGOTIATION"]
    elif c == 412:
        want = ["STATUS_PRECONDITION_FAILED"] if req is None else ["STATUS_412_WITHOUT_PRECONDITION"]
    elif c == 417:
        want = ["STATUS_EXPECTATION_FAILED"] if req is None else ["STATUS_417_WITHOUT_EXPECT"]
    elif c not in QUIET:
        want = ["STATUS_NONSTANDARD"]
    agree(chk, r, want, "a status code gets the notes about it, and no others")
    if c == 414:
        text = lib.find(r, "STATUS_URI_TOO_LONG").vars["uri_len"]
        chk.eq(text, "" if req is None else "(19 characters)", "the target's length is shown if it's known")
    for n in r.notes:
        if type(n).__name__ in OURS and "status" in n.vars:
            chk.eq(n.vars["status"], c, "notes about a status code show it")
    if want == ["STATUS_NONSTANDARD"]:
        chk.reach("nonstandard")


def some(inp, name, first, rest):
    """A field name in some case."""
    return b"".join([first if inp.bool(name) else first.lower(), rest])


def present(inp, name, values):
    """None, or one of the values."""
    i = inp.choice(name, range(len(values) + 1))
    return None if i == 0 else values[i - 1]


def message(inp, chk, codes):
    """A response with any of the fields that matter to its code, with or without the request it answers."""
    c = inp.choice("code", codes)
    method = inp.choice("method", METHODS)
    rh, qh = [], []
    has_req = inp.bool("req")
    expect = rng = neg = pre = up = None
    if has_req:
        if c in (100, 417):
            expect = present(inp, "expect", ["100-continue", "100-CONTINUE", "x", "x,100-continue", "100-continue ,x", "100-continued"])
            if expect is not None:
                qh.append((inp.choice("en", [b"Expect", b"expect"]), expect.encode()))
        if c in (206, 416):
            rng = present(inp, "range", [b"bytes=0-1", b"x"])
            if rng is not None:
                qh.append((inp.choice("rn", [b"Range", b"range"]), rng))
        if c == 406:
            neg = present(inp, "neg", [b"Accept", b"Accept-Charset", b"accept-encoding", b"Accept-Language", b"ACCEPT"])
            if neg is not None:
                qh.append((neg, b"a"))
        if c == 412:
            pre = present(inp, "pre", [b"If-Match", b"If-None-Match", b"if-modified-since", b"If-Unmodified-Since", b"IF-RANGE"])
            if pre is not None:
                qh.append((pre, b'"a"'))
        if c == 101:
            up = present(inp, "up", [b"Upgrade", b"upgrade"])
            if up is not None:
                qh.append((up, b"websocket"))
        qh.append((b"Accept-Patch", b"a/b"))
        qh.append((b"If-Schedule-Tag-Match", b'"a"'))
    loc = None
    if c in REDIRECTS or c == 201:
        loc = present(inp, "loc", [b"Location", b"location", b"Content-Location"])
        if loc is not None:
            rh.append((loc, b"http://example.com/a"))
    cr = ct = None
    if c == 206:
        cr = present(inp, "cr", [b"Content-Range", b"content-range"])
        if cr is not None:
            rh.append((cr, b"bytes 0-1/4"))
    if c in (206, 304):
        ct = present(inp, "ct", [b"text/plain", b"multipart/byteranges; boundary=a", b"multipart/form-data; boundary=a", b"Multipart/ByteRanges; boundary=a"])
        if ct is not None:
            rh.append((b"Content-Type", ct))
    date = None
    ce = cl = False
    if c == 304:
        date = present(inp, "date", [b"Date", b"date"])
        if date is not None:
            rh.append((date, b"Mon, 06 Jul 2015 14:32:21 GMT"))
        ce = inp.bool("ce")
        if ce:
            rh.append((b"Content-Encoding", b"gzip"))
        cl = inp.bool("cl")
        if cl:
            rh.append((b"Content-Language", b"en"))
    allow = None
    if c == 405:
        allow = present(inp, "allow", [b"GET", b"GET, POST", b"TRACE,DELETE", b"PATC, get", b"request", b""])
        if allow is not None:
            rh.append((b"Allow", allow))
    req = lib.request(qh, method=method) if has_req else None
    r = lib.response(rh, status=str(c).encode(), req=req)
    want = []
    if c == 100:
        if has_req and (expect is None or "100-continue" not in [x.strip().lower() for x in expect.split(",")]):
            want.append("UNEXPECTED_CONTINUE")
    if c == 101 and has_req and up is None:
        want.append("UPGRADE_NOT_REQUESTED")
    if c == 201:
        if has_req and method in SAFE:
            want.append("CREATED_SAFE_METHOD")
        if loc is None or loc == b"Content-Location":
            want.append("CREATED_WITHOUT_LOCATION")
    if c in REDIRECTS and (loc is None or loc == b"Content-Location"):
        want.append("REDIRECT_WITHOUT_LOCATION")
    if c == 206:
        if has_req and rng is None:
            want.append("PARTIAL_NOT_REQUESTED")
        if cr is None and (ct is None or not ct.lower().startswith(b"multipart/byteranges")):
            want.append("PARTIAL_WITHOUT_RANGE")
    if c == 416 and has_req and rng is None:
        want.append("STATUS_416_WITHOUT_RANGE")
    bad = []
    if c == 304:
        if date is None:
            want.append("NO_DATE_304")
        if ct is not None:
            bad.append("content-type")
        if ce:
            bad.append("content-encoding")
        if cl:
            bad.append("content-language")
        if bad:
            want.append("HEADER_SHOULD_NOT_BE_IN_304")
    if c == 405:
        listed = has_req and allow is not None and method.decode() in [x.strip() for x in allow.decode().split(",")]
        want.append("STATUS_405_METHOD_IN_ALLOW" if listed else "STATUS_METHOD_NOT_ALLOWED")
    if c == 406:
        want.append("STATUS_406_WITHOUT_NEGOTIATION" if has_req and neg is None else "STATUS_NOT_ACCEPTABLE")
    if c == 412:
        want.append("STATUS_412_WITHOUT_PRECONDITION" if has_req and pre is None else "STATUS_PRECONDITION_FAILED")
    if c == 417:
        if has_req and expect is None:
            want.append("STATUS_417_WITHOUT_EXPECT")
        elif has_req and "100-continue" in [x.strip().lower() for x in expect.split(",")]:
            want.append("STATUS_417_WITH_100_CONTINUE")
        else:
            want.append("STATUS_EXPECTATION_FAILED")
    agree(chk, r, want, "a status code is judged against the messages' fields")
    if bad:
        text = lib.find(r, "HEADER_SHOULD_NOT_BE_IN_304").vars["headers"]
        for h in ["content-type", "content-encoding", "content-language", "date"]:
            chk.eq(h in text, h in bad, "the fields that shouldn't be sent are named")
    if "STATUS_405_METHOD_IN_ALLOW" in want:
        chk.eq(lib.find(r, "STATUS_405_METHOD_IN_ALLOW").vars["method"], method.decode(), "the method is named")
        chk.reach("allowed")
    chk.reach("message")


def expectation(inp, chk, code, base, i, n):
    """Any expectation near the one there is."""
    base = base.encode()
    v = base[:i] + inp.bytes("w", n, alphabet=[c for c in range(32, 127)]) + base[i + n:]
    req = lib.request([(b"Expect", v)])
    r = lib.response([], status=str(code).encode(), req=req)
    found = False
    for x in v.split(b","):
        if x.strip(b" ").lower() == b"100-continue":
            found = True
    if code == 100:
        agree(chk, r, [] if found else ["UNEXPECTED_CONTINUE"], "the expectation is recognised in any case, in a list, and no other one is")
    else:
        agree(chk, r, ["STATUS_417_WITH_100_CONTINUE" if found else "STATUS_EXPECTATION_FAILED"], "the expectation is recognised in any case, in a list, and no other one is")
    if found:
        chk.reach("expected")


def method(inp, chk, code, base, i, n):
    """Any method near the ones that are safe, or listed."""
    base = base.encode()
    m = base[:i] + inp.bytes("w", n, alphabet=[c for c in range(33, 127)]) + base[i + n:]
    req = lib.request([], method=m)
    r = lib.response([(b"Allow", b"HEAD, GET"), (b"Location", b"/a")], status=str(code).encode(), req=req)
    if code == 201:
        safe = m == b"GET" or m == b"HEAD" or m == b"OPTIONS" or m == b"TRACE"
        agree(chk, r, ["CREATED_SAFE_METHOD"] if safe else [], "creating a resource is questioned for safe methods, and no others")
    else:
        listed = m == b"GET" or m == b"HEAD"
        agree(chk, r, ["STATUS_405_METHOD_IN_ALLOW" if listed else "STATUS_METHOD_NOT_ALLOWED"], "the method is looked up in Allow")


def agent(inp, chk, n):
    """Requests without a User-Agent."""
    name = inp.bytes("name", n, alphabet="usernagtUSERNAGT-") if n else b"User-Agent"
    here = inp.bool("here")
    tail = b"" if n == 0 else b"User-Agent"[n:]
    full = name + tail
    r = lib.request([(full, b"a/1")] if here else [])
    is_it = here and full.lower() == b"user-agent"
    chk.eq(lib.count(r, "MISSING_USER_AGENT"), 0 if is_it else 1, "requests without a User-Agent are reported, and no others")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for n in range(1, 7 if deep else 5):
        out.append(dict(func="number", params=dict(n=n)))
    for n in range(1, 4 if deep else 3):
        out.append(dict(func="phrase", params=dict(n=n)))
    for first in list(range(0, 25)) + [102, 655]:
        out.append(dict(func="code", params=dict(first=first)))
    for codes in [[100], [101], [201], [206], [416], [304], [405], [406], [412], [417]] + [[x] for x in REDIRECTS]:
        out.append(dict(func="message", params=dict(codes=codes), weight=3))
    n = 3 if deep else 2
    for c in (100, 417):
        for base in [b"100-continue", b"a,100-continue", b"100-continue,a"] if deep else [b"100-continue", b"a,100-continue"]:
            for i in range(len(base) + 1 - n):
                out.append(dict(func="expectation", params=dict(code=c, base=base.decode(), i=i, n=n)))
    for c in (201, 405):
        for base in (b"GET", b"HEAD", b"OPTIONS", b"TRACE"):
            for i in range(len(base) + 1):
                for k in range(1, n + 1):
                    if i + k <= len(base) + 1:
                        out.append(dict(func="method", params=dict(code=c, base=base.decode(), i=i, n=k)))
    for n in range(0, 4):
        out.append(dict(func="agent", params=dict(n=n)))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["number", "other", "nonstandard", "message", "allowed", "expected"]
BOUNDS = {
    "quick": "every status code up to 2499 (and some of five digits), alone; status codes and phrases of up to 4 and 2 arbitrary bytes; for the codes whose notes depend on fields, every combination of those fields' presence (in both letter cases), with and without the request, for 9 methods; expectations and methods with any 2 characters replaced",
    "thorough": "every status code up to 2499 (and some of five digits), alone; status codes and phrases of up to 6 and 3 arbitrary bytes; the same combinations of fields; expectations and methods with any 3 characters replaced",
}
OUTSIDE = "whether a status code is appropriate for what the server did; notes' prose"
ASSUMPTIONS = ["fields whose presence matters have valid values"]
