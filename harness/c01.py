"""C01: which caches may store a response."""
from harness import lib
from harness.lib import HttpRequestLinter, HttpResponseLinter

HEURISTIC = [200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501]  # RFC 9110, Section 15.1
STORE_NOTES = ["STORE_METHOD_UNCACHEABLE", "STORE_NO_STORE", "STORE_PRIVATE_CC", "STORE_PRIVATE_PUBLIC_CONFLICT", "STORE_PRIVATE_AUTH",
               "STORE_PUBLIC_AUTH", "STORE_STORABLE", "STORE_STORABLE_SHARED_ONLY", "STORE_UNSTORABLE"]
EXPIRES = [None, b"Mon, 04 Jul 2011 09:08:06 GMT", b"Thu, 01 Jan 1970 00:00:00 GMT", b"0"]
VALID_EXPIRES = [False, True, True, False]
D = "0123456789"


def heuristic(code):
    for c in HEURISTIC:
        if code == c:
            return True
    return False


def judge(chk, r, req, method, auth, vary_star, cc, expires_ok, status):
    """The model: cc is the set of directives present."""
    notes = [n for n in STORE_NOTES if lib.has(r, n)]
    chk(not lib.has(r, "STORE_METHOD_UNCACHEABLE"), "the method note belongs to the request")
    on_req = 0 if req is None else lib.count(req, "STORE_METHOD_UNCACHEABLE")
    c = r.caching
    if vary_star:
        private, shared, want = False, False, []
        chk.eq(on_req, 0, "no method note")
    elif method is not None and method != b"GET" and method != b"HEAD":
        private, shared, want = False, False, []
        chk.eq(on_req, 1, "an uncacheable method is noted on the request")
        chk.reach("method")
    elif "no-store" in cc:
        private, shared, want = False, False, ["STORE_NO_STORE"]
    elif "private" in cc:
        private, shared, want = True, False, ["STORE_PRIVATE_CC"]
        if "public" in cc:
            want = ["STORE_PRIVATE_CC", "STORE_PRIVATE_PUBLIC_CONFLICT"]
    elif auth:
        # authenticated: shared caches need an explicit directive; whether private ones may store
        # is only settled here for responses that are otherwise storable
        private = True
        if "public" in cc or "must-revalidate" in cc or "s-maxage" in cc:
            shared, want = True, ["STORE_PUBLIC_AUTH"]
        else:
            shared, want = False, ["STORE_PRIVATE_AUTH"]
        chk.reach("auth")
    elif "public" in cc or expires_ok or "max-age" in cc or heuristic(status):
        private, shared, want = True, True, ["STORE_STORABLE"]
        chk.reach("storable")
    elif "s-maxage" in cc:
        private, shared, want = False, True, ["STORE_STORABLE_SHARED_ONLY"]
        chk.reach("shared only")
    else:
        private, shared, want = False, False, ["STORE_UNSTORABLE"]
        chk.reach("unstorable")
    if not auth or heuristic(status) or "public" in cc or "max-age" in cc or expires_ok:
        chk.eq(c.store_private, private, "storable by private caches")
        chk.eq(c.store_shared, shared, "storable by shared caches")
        chk.eq(notes, want, "storage notes")
    for n in want:
        chk.eq(lib.count(r, n), 1, "one note each")
    if method is None or method == b"GET" or method == b"HEAD":
        chk.eq(on_req, 0, "no method note")
    if "STORE_PUBLIC_AUTH" in want and lib.has(r, "STORE_PUBLIC_AUTH"):
        d = "public" if "public" in cc else ("must-revalidate" if "must-revalidate" in cc else "s-maxage")
        chk.eq(lib.find(r, "STORE_PUBLIC_AUTH").vars["directive"], d, "directive that allows shared storage")


DIRECTIVES = ["no-store", "private", "public", "must-revalidate", "s-maxage", "max-age"]
NEUTRAL = ["no-cache", "no-transform", "proxy-revalidate", "immutable", "stale-if-error", "foo"]


def text(d):
    return {"s-maxage": b"s-maxage=5", "max-age": b"max-age=5", "stale-if-error": b"stale-if-error=5"}.get(d, d.encode())


def build(inp, status, method, auth, vary, lines, expires, extra=None):
    r = HttpResponseLinter(start_time=1000000000)
    req = None
    if method is not None:
        hdrs = [(b"Accept", b"*/*")]
        if auth:
            hdrs = hdrs + [(auth, b"Basic YTpi")]
        req = HttpRequestLinter(start_time=1000000000)
        req.process_request_topline(method, b"http://h.i/j", b"HTTP/1.1")
        req.process_headers(hdrs)
        req.finish_content(True)
        r.request = req
        req.response = r
    r.process_response_topline(b"HTTP/1.1", status, b"OK")
    hdrs = [(b"Date", b"Mon, 04 Jul 2011 09:08:06 GMT")]
    if vary is not None:
        hdrs = hdrs + [(b"Vary", vary)]
    if expires is not None:
        hdrs = hdrs + [(b"Expires", expires)]
    r.process_headers(hdrs + [(b"Cache-Control", l) for l in lines] + (extra or []))
    r.finish_content(True)
    return r, req


def anystatus(inp, chk, first):
    """Every three-digit status with every combination of directives, authorisation and Expires."""
    status = first.encode() + inp.bytes("status", 2, alphabet=D)
    cc = [d for d in DIRECTIVES if inp.choice(d, [False, True])]
    auth = inp.choice("auth", [None, b"Authorization"])
    e = inp.choice("expires", [0, 1])
    r, req = build(inp, status, b"GET", auth, None, [b", ".join([text(d) for d in cc])] if cc else [], EXPIRES[e])
    judge(chk, r, req, b"GET", auth is not None, False, cc, VALID_EXPIRES[e], int(status))


def method(inp, chk, n):
    """Every method of n letters, and no request at all."""
    m = None if n == 0 else inp.bytes("method", n, alphabet="ACDEGHKLNOPRSTUVgeth")
    cc = [d for d in ["no-store", "private", "public"] if inp.choice(d, [False, True])]
    status = inp.choice("status", [b"200", b"302"])
    r, req = build(inp, status, m, None, None, [b",".join([text(d) for d in cc])] if cc else [], None)
    judge(chk, r, req, m, False, False, cc, False, int(status))


def spelling(inp, chk):
    """One directive in any letter case, at any place, in one or more field lines, with others that don't matter."""
    d = inp.choice("d", DIRECTIVES)
    t = text(d)
    k = inp.choice("upper", range(len(d)))
    inp.assume(97 <= t[k] and t[k] <= 122)
    t = t[:k] + bytes([t[k] - 32]) + t[k + 1:]
    other = inp.choice("other", NEUTRAL)
    shape = inp.choice("shape", range(5))
    o = text(other)
    lines = [[t], [t + b"," + o], [o + b" ,\t" + t], [o, t], [t, o]][shape]
    status = inp.choice("status", [b"200", b"299"])
    auth = inp.choice("auth", [None, b"Authorization", b"authorization"])
    r, req = build(inp, status, inp.choice("m", [b"GET", b"HEAD"]), auth, None, lines, None)
    judge(chk, r, req, b"GET", auth is not None, False, [d], False, int(status))


def context(inp, chk):
    """Vary: *, the forms of Expires, Authorization without meaning."""
    v = inp.choice("vary", [None, b"*", b"a", b"a, *", b"*, b", b"a*"])
    e = inp.choice("expires", range(len(EXPIRES)))
    cc = [d for d in ["no-store", "private", "s-maxage", "max-age"] if inp.choice(d, [False, True])]
    auth = inp.choice("auth", [None, b"Authorization"])
    m = inp.choice("m", [None, b"GET", b"POST"])
    status = inp.choice("status", [b"200", b"299"])
    r, req = build(inp, status, m, auth, v, [text(d) for d in cc], EXPIRES[e], [(b"Authorization", b"x")] if inp.choice("bogus", [False, True]) else None)
    star = v is not None and b"*" in v and v != b"a*"
    judge(chk, r, req, m, auth is not None and m is not None, star, cc, VALID_EXPIRES[e], int(status))
    if star:
        chk.reach("vary")


def credentials(inp, chk, n):
    """Any credentials, including none: the request is authenticated when it has the field."""
    value = inp.bytes("value", n)
    name = inp.choice("name", [b"Authorization", b"AUTHORIZATION", b"aUTHORIZATION"])
    again = inp.choice("again", [None, b"", b"Basic YTpi"])
    req = HttpRequestLinter(start_time=1000000000)
    req.process_request_topline(b"GET", b"http://h.i/j", b"HTTP/1.1")
    req.process_headers([(b"Accept", b"*/*"), (name, value)] + ([(b"Authorization", again)] if again is not None else []))
    req.finish_content(True)
    r = HttpResponseLinter(start_time=1000000000)
    r.request = req
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    cc = [d for d in ["public", "max-age"] if inp.choice(d, [False, True])]
    r.process_headers([(b"Date", b"Mon, 04 Jul 2011 09:08:06 GMT"), (b"Cache-Control", b", ".join([text(d) for d in cc]))])
    r.finish_content(True)
    judge(chk, r, req, b"GET", True, False, cc, False, 200)


def name(inp, chk, i):
    """Only the directives defined by HTTP have an effect: a directive with one byte changed is unknown."""
    d = DIRECTIVES[i]
    t = text(d)
    k = inp.choice("k", range(len(d)))
    b = inp.bytes("b", 1, alphabet="abcdefghijklmnopqrstuvwxyz0123456789-_.~!")
    inp.assume(b[0] != t[k])
    r, req = build(inp, b"299", b"GET", inp.choice("auth", [None, b"Authorization"]), None, [t[:k] + b + t[k + 1:]], None)
    c = r.caching
    chk(lib.has(r, "STORE_UNSTORABLE") or lib.has(r, "STORE_PRIVATE_AUTH"), "an unknown directive allows nothing")
    chk(not c.store_shared, "an unknown directive doesn't allow shared storage")


def repeated(inp, chk):
    """A directive that's repeated with an invalid or a different argument."""
    vals = [b"", b"=", b"=1", b"=x", b'="a"']
    d = inp.choice("d", [b"private", b"no-store", b"max-age", b"s-maxage"])
    v = inp.choice("v", vals)
    r, req = build(inp, b"299", b"GET", None, None, [d + v], None)
    c = r.caching
    if d == b"no-store":
        chk(not c.store_shared and not c.store_private and lib.has(r, "STORE_NO_STORE"), "no-store")
    elif d == b"private":
        chk(not c.store_shared and c.store_private, "private")
    else:
        ok = v == b"=1"
        chk.eq(c.store_shared, ok, "a freshness directive needs a number")
        chk.eq(c.store_private, ok and d == b"max-age", "a freshness directive needs a number (private)")


def tasks(tier):
    deep = tier == "thorough"
    out = [{"func": "anystatus", "params": {"first": f}, "weight": 2} for f in "12345"]
    out += [{"func": "method", "params": {"n": n}} for n in ((0, 3, 4) if not deep else (0, 1, 2, 3, 4, 5, 6, 7))]
    out += [{"func": "spelling"}, {"func": "context"}, {"func": "repeated"}]
    out += [{"func": "credentials", "params": {"n": n}} for n in ((0, 1, 2) if not deep else (0, 1, 2, 3))]
    out += [{"func": "name", "params": {"i": i}} for i in range(len(DIRECTIVES))]
    return out


BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = {
    "quick": "every status 100-599 with every subset of {no-store, private, public, must-revalidate, s-maxage, max-age}, with and without Authorization and Expires; every method of 3-4 letters; every letter case of one letter of a directive, in 5 layouts; every one-byte change of a directive name; Authorization values of 0-2 arbitrary bytes",
    "thorough": "as quick, methods of 1-7 letters, Authorization values of 3 bytes",
}
OUTSIDE = "qualified private/no-cache arguments (private=\"field\" is treated as private); authenticated responses that aren't otherwise storable (only the shared verdict note is claimed for them); request directives"
MUST_REACH = ["method", "auth", "storable", "shared only", "unstorable", "vary"]
