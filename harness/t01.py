"""T01: linting never raises."""
from harness import lib, seeds

BOUNDS = {
    "quick": "every known field name (and one unknown); value = (a) every byte string of length 0..2, (b) each skeleton of harness/seeds.py with every window of 1 byte replaced/inserted and every 2-byte window replaced, all 256 byte values; also as trailers",
    "thorough": "as quick, plus every byte string of length 3..4 and windows of 3 bytes",
}
OUTSIDE = "values that differ from every skeleton in more than one window; field values beyond those lengths; content bodies (T02)"


def lint(inp, kind, name, value, second=None):
    headers = [(name, value)]
    if second is not None:
        headers.append((name, second))
    if kind == "response":
        return lib.response(headers)
    if kind == "request":
        return lib.request(headers)
    if kind == "resptrailer":
        return lib.response([], trailers=headers)
    return lib.request([], trailers=headers)


HOOK = [None]  # T02 adds the rendering of the notes


def observe(chk, msg):
    chk.obs("notes", lib.names(msg))
    if HOOK[0] is not None:
        HOOK[0](chk, msg)
    chk(msg.complete in (True, False), "finishes")


def whole(inp, chk, kind, name, n):
    """An arbitrary value of n bytes."""
    msg = lint(inp, kind, name.encode(), inp.bytes("v", n))
    observe(chk, msg)


def edit(inp, chk, kind, name, i, delete, insert):
    """Skeleton i of the field with one symbolic window at a symbolic position."""
    value = (seeds.RESPONSE if "resp" in kind else seeds.REQUEST)[name][i]
    pos = inp.choice("pos", range(0, len(value) - delete + 1))
    msg = lint(inp, kind, name.encode(), lib.window(inp, value, pos, delete, insert))
    observe(chk, msg)


def pair(inp, chk, kind, name, i, n):
    """A field repeated: one skeleton line and one arbitrary line."""
    value = (seeds.RESPONSE if "resp" in kind else seeds.REQUEST)[name][i]
    order = inp.choice("order", [0, 1])
    v = inp.bytes("v", n)
    a, b = (value, v) if order else (v, value)
    observe(chk, lint(inp, kind, name.encode(), a, b))


def topline_response(inp, chk, nv, ns, np):
    """Arbitrary status line parts."""
    r = lib.HttpResponseLinter(start_time=inp.choice("st", [None, 1000000000]), no_content=inp.choice("nc", [False, True]))
    r.process_response_topline(inp.bytes("version", nv), inp.bytes("status", ns), inp.bytes("phrase", np))
    r.process_headers([])
    r.finish_content(inp.choice("complete", [True, False]))
    observe(chk, r)


def topline_request(inp, chk, nm, nv):
    r = lib.HttpRequestLinter(start_time=1000000000)
    r.process_request_topline(inp.bytes("method", nm), b"/", inp.bytes("version", nv))
    r.process_headers([])
    r.feed_content(b"a")
    r.finish_content(True)
    observe(chk, r)


URIS = [b"http://a.b/c?d#e", b"http://[::1]:8/x", b"//h/", b"/p?q", b"http://u:p@a.b:80", b"a://\xc3\xa9.b/\xc3\xa9?\xc3\xa9"]


def uri(inp, chk, i, delete, insert):
    """Request targets: skeleton URIs with a symbolic window."""
    v = URIS[i]
    pos = inp.choice("pos", range(0, len(v) - delete + 1))
    r = lib.HttpRequestLinter(start_time=1000000000)
    r.process_request_topline(b"GET", lib.window(inp, v, pos, delete, insert), b"HTTP/1.1")
    r.process_headers([(b"Referer", b"https://e.org/")])
    r.finish_content(True)
    observe(chk, r)


def uri_whole(inp, chk, n):
    r = lib.HttpRequestLinter(start_time=1000000000)
    r.process_request_topline(b"GET", inp.bytes("u", n), b"HTTP/1.1")
    r.process_headers([])
    r.finish_content(True)
    observe(chk, r)


NAMES = [b"Date", b"x-pad-for-netscrape-bug", b"From", b"Content_Type", b"_onnection", b"Vary"]


def field_name(inp, chk, i, n):
    """Field names: arbitrary, or a known name with one symbolic byte."""
    if i < 0:
        name = inp.bytes("name", n)
    else:
        pos = inp.choice("pos", range(0, len(NAMES[i])))
        name = lib.window(inp, NAMES[i], pos, 1, n)
    r = lib.response([(name, b"a"), (b"Vary", b"*")], trailers=[(name, b"b")])
    observe(chk, r)


USED = [b"Content-Type", b"Content-Length", b"Cache-Control", b"Date", b"Age", b"Expires", b"Vary", b"Location", b"Content-Encoding", b"Accept-Ranges", b"Content-Range",
        b"Access-Control-Allow-Origin", b"Access-Control-Allow-Methods", b"Access-Control-Max-Age", b"NEL", b"Reporting-Endpoints", b"Last-Modified", b"ETag"]


def near_name(inp, chk, i):
    """Names of fields that other parts look up, with one extra byte."""
    v = USED[i]
    pos = inp.choice("pos", range(0, len(v) + 1))
    name = lib.window(inp, v, pos, 0, 1)
    r = lib.response([(name, inp.choice("v", [b"a", b"1", b"gzip"]))], status=inp.choice("status", [b"200", b"206", b"301"]), content=b"ab", trailers=[(name, b"b")])
    observe(chk, r)


RESP_CTX = [
    # (request method or None, start_time, no_content, base, head, status, trailers)
    (None, None, False, "", False, b"200", None),
    ("GET", 1000000000, False, "http://h.i/j/k", False, b"200", "same"),
    ("GET", 1000000000.5, False, "https://h.i", False, b"206", "age"),
    ("HEAD", 1000000000, False, "https://h.i/", True, b"200", None),
    ("POST", None, False, "https://h.i/", False, b"304", "age"),
    ("OPTIONS", 1000000000, True, "", False, b"204", "same"),
    ("GET", 0, True, "http://[", False, b"abc", None),
    ("PUT", 1000000000, False, "x:", False, b"301", None),
]


def context(inp, chk, kind, name, i, n):
    """Every field in every message context (related message, HEAD, 304, base URI, no content)."""
    value = (seeds.RESPONSE if kind == "response" else seeds.REQUEST)[name][i]
    hdrs = [(name.encode(), inp.bytes("c", n) + value)]
    if kind == "response":
        method, st, nc, base, head, status, tr = RESP_CTX[inp.choice("ctx", range(len(RESP_CTX)))]
        r = lib.HttpResponseLinter(start_time=st, no_content=nc)
        if method is not None:
            r.request = lib.request([(b"Origin", b"https://x.y"), (b"Accept-Encoding", b"gzip")], method=method.encode())
        r.base_uri = base
        r.is_head_response = head
        r.process_response_topline(b"HTTP/1.1", status, b"x")
        r.process_headers(hdrs)
        r.feed_content(b"a")
        r.finish_content(True, {"same": hdrs, "age": [(b"Age", b"x")], None: None}[tr])
    else:
        r = lib.HttpRequestLinter(start_time=None)
        if inp.bool("rel"):
            r.response = lib.response([])
        r.base_uri = "http://h.i/"
        r.process_request_topline(inp.choice("m", [b"GET", b"OPTIONS", b"POST"]), inp.choice("uri", [b"http://h.i/j", b"http://[", b"*"]), b"HTTP/1.1")
        r.process_headers(hdrs)
        r.feed_content(b"a")
        r.finish_content(True, inp.choice("tr", [None, hdrs]))
    observe(chk, r)


SFV = [b"?0", b"?1", b"1", b"1.5", b'"s"', b"tok", b":YQ==:", b"@1", b'%"x"', b"(a b)", b"", b'""', b"999999999999999", b"-1"]
SF_FIELDS = {
    "accept-ch": b"%s", "accept-query": b"%s", "cache-groups": b"%s", "cache-group-invalidation": b"%s",
    "cache-status": b"c; hit=%s; ttl=%s; fwd=%s; key=%s; fwd-status=%s; detail=%s; stored=%s; collapsed=%s; x=%s", "cdn-cache-control": b"max-age=%s, private=%s, no-store=%s, foo=%s, no-cache=%s, s-maxage=%s",
    "cross-origin-embedder-policy": b"%s; report-to=%s", "cross-origin-opener-policy": b"%s; report-to=%s",
    "deprecation": b"%s", "permissions-policy": b"a=%s, b=(%s)", "proxy-status": b"%s; error=%s; next-hop=%s; received-status=%s; details=%s; next-protocol=%s",
    "reporting-endpoints": b"a=%s, b=%s", "speculation-rules": b"%s, %s", "use-as-dictionary": b"match=%s, id=%s, match-dest=%s, type=%s, ttl=%s",
}


def sf_values(inp, chk, name):
    """Structured fields with every kind of bare item in one (symbolically chosen) place."""
    t = SF_FIELDS[name].split(b"%s")
    k = inp.choice("k", range(len(t) - 1))
    v = inp.choice("v", SFV)
    value = t[0]
    for j in range(1, len(t)):
        value = value + (v if j - 1 == k else b"a") + t[j]
    observe(chk, lib.response([(name.encode(), value), (b"Reporting-Endpoints", b'a="https://a.b/"')] if name != "reporting-endpoints" else [(name.encode(), value), (b"NEL", b'{"report_to":"a","max_age":1}')]))


LONG = ["age", "content-length", "access-control-max-age", "cache-control", "strict-transport-security", "content-range", "set-cookie", "nel", "retry-after", "deprecation", "cdn-cache-control", "cache-status", "server-timing", "alt-svc"]


def long_digits(inp, chk, name, n):
    """Very large numbers, with and without clocks."""
    # very long values are concrete: only the surroundings vary
    d = (inp.bytes("d", 1, alphabet="0123456789") if n < 1000 else inp.choice("d", [b"0", b"5"])) + b"9" * n
    v = {"cache-control": b"max-age=%s, s-maxage=%s", "strict-transport-security": b"max-age=%s", "content-range": b"bytes %s-%s/%s", "set-cookie": b"a=b; Max-Age=%s",
         "nel": b'{"report_to":"a","max_age":%s, "success_fraction":%s}', "deprecation": b"@%s", "cdn-cache-control": b"max-age=%s", "cache-status": b"a; ttl=%s", "server-timing": b"a;dur=%s", "alt-svc": b'h2=":%s"; ma=%s'}.get(name, b"%s")
    v = d.join(v.split(b"%s"))
    r = lib.HttpResponseLinter(start_time=inp.choice("st", [None, 1000000000, 1000000000.5, 0]))
    if inp.bool("rel"):
        r.request = lib.HttpRequestLinter(start_time=inp.choice("rst", [999999999.25, None]))
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    r.process_headers([(b"Date", b"Mon, 04 Jul 2011 09:08:06 GMT"), (name.encode(), v)])
    r.feed_content(b"a")
    r.finish_content(True)
    observe(chk, r)


RE = b'e="https://e.com/r"'
COMBOS = [
    # (field with the symbolic window, value, other fields)
    ("reporting-endpoints", b'e="//h/r", f=1', [(b"NEL", b'{"report_to":"e","max_age":1}')]),
    ("nel", b'{"report_to":"e","max_age":1}', [(b"Reporting-Endpoints", RE)]),
    ("nel", b'{"report_to":"e","max_age":1}', [(b"NEL", b"1"), (b"NEL", b'{"report_to":"g","max_age":1}')]),
    ("nel", b'"', [(b"NEL", b'{"report_to":"g","max_age":1}'), (b"Report-To", b'{"group":"g"}')]),
    ("content-security-policy", b"report-to e; sandbox", [(b"Reporting-Endpoints", RE)]),
    ("cross-origin-embedder-policy", b'require-corp; report-to="e"', [(b"Reporting-Endpoints", RE)]),
    ("cross-origin-opener-policy", b'same-origin; report-to="e"', [(b"Cross-Origin-Opener-Policy", b"x")]),
    ("cross-origin-opener-policy-report-only", b'same-origin; report-to="e"', [(b"Reporting-Endpoints", b"[")]),
    ("accept-ch", b"A, B", [(b"Vary", b"a"), (b"Accept-CH", b"x")]),
    ("cdn-cache-control", b"max-age=1", [(b"CDN-Cache-Control", b"no-store"), (b"Cache-Control", b"max-age=2")]),
    ("cache-control", b"max-age=9, private", [(b"Age", b"x"), (b"Expires", b"0"), (b"Pragma", b"no-cache")]),
    ("age", b"10", [(b"Date", b"x"), (b"Cache-Control", b"max-age=2")]),
    ("date", b"Mon, 04 Jul 2011 09:08:06 GMT", [(b"Expires", b"Mon, 04 Jul 2011 09:08:06 GMT"), (b"Age", b"1"), (b"Last-Modified", b"Mon, 04 Jul 2011 09:08:06 GMT")]),
    ("vary", b"a, *", [(b"Available-Dictionary", b"x"), (b"Content-Encoding", b"dcb"), (b"Access-Control-Allow-Origin", b"*")]),
    ("content-encoding", b"dcb, gzip", [(b"Vary", b"*"), (b"Content-Encoding", b"br")]),
    ("location", b"//[1::2]:8/a", [(b"Location", b"x")]),
    ("content-location", b"//[v1.a]/a", []),
    ("content-length", b"1", [(b"Transfer-Encoding", b"chunked"), (b"Content-Length", b"x")]),
    ("transfer-encoding", b"chunked", [(b"Content-Length", b"1"), (b"Transfer-Encoding", b"gzip")]),
    ("content-type", b"text/html;charset=a", [(b"X-Content-Type-Options", b"nosniff"), (b"Content-Type", b";")]),
    ("set-cookie", b"a=b; path=/", [(b"Set-Cookie", b"a=b; domain=x; path=/")]),
    ("content-range", b"bytes 1-2/3", [(b"Content-Range", b"x"), (b"Content-Length", b"2")]),
    ("use-as-dictionary", b'match="/a"', [(b"Vary", b"x"), (b"Use-As-Dictionary", b"match=1")]),
    ("strict-transport-security", b"max-age=1", [(b"Strict-Transport-Security", b"x")]),
    ("access-control-allow-origin", b"*", [(b"Access-Control-Allow-Credentials", b"true"), (b"Access-Control-Max-Age", b"x")]),
]


def combo(inp, chk, i, delete, insert):
    """Fields that are interpreted together."""
    name, v, others = COMBOS[i]
    pos = inp.choice("pos", range(0, len(v) - delete + 1))
    line = (name.encode(), lib.window(inp, v, pos, delete, insert))
    last = inp.choice("last", [True, False])
    hdrs = others + [line] if last else [line] + others
    r = lib.response(hdrs, status=inp.choice("status", [b"200", b"301", b"206"]), content=b"ab", base_uri="https://h.i/j/k")
    observe(chk, r)


def tasks(tier):
    out = []
    for i in range(len(COMBOS)):
        out.append({"func": "combo", "params": {"i": i, "delete": 1, "insert": 1}, "weight": 2})
        out.append({"func": "combo", "params": {"i": i, "delete": 0, "insert": 1}, "weight": 2})
    out += [
        {"func": "topline_response", "params": {"nv": 1, "ns": 3, "np": 1}},
        {"func": "topline_response", "params": {"nv": 0, "ns": 0, "np": 0}},
        {"func": "topline_response", "params": {"nv": 2, "ns": 4 if tier == "thorough" else 2, "np": 2}},
        {"func": "topline_request", "params": {"nm": 1, "nv": 1}},
        {"func": "topline_request", "params": {"nm": 3, "nv": 0}},
        {"func": "field_name", "params": {"i": -1, "n": 0}},
        {"func": "field_name", "params": {"i": -1, "n": 1}},
        {"func": "field_name", "params": {"i": -1, "n": 2}},
    ]
    for i in range(len(USED)):
        out.append({"func": "near_name", "params": {"i": i}})
    for i in range(len(NAMES)):
        out.append({"func": "field_name", "params": {"i": i, "n": 1}})
    for n in range(4 if tier == "thorough" else 3):
        out.append({"func": "uri_whole", "params": {"n": n}})
    for i in range(len(URIS)):
        out.append({"func": "uri", "params": {"i": i, "delete": 0, "insert": 1}})
        out.append({"func": "uri", "params": {"i": i, "delete": 1, "insert": 1}})
        if tier == "thorough":
            out.append({"func": "uri", "params": {"i": i, "delete": 2, "insert": 2}})
    for name in seeds.RESPONSE:
        for n in (0, 1):
            out.append({"func": "context", "params": {"kind": "response", "name": name, "i": 0, "n": n}})
    for name in seeds.REQUEST:
        for n in (0, 1):
            out.append({"func": "context", "params": {"kind": "request", "name": name, "i": 0, "n": n}})
    for name in SF_FIELDS:
        out.append({"func": "sf_values", "params": {"name": name}})
    for name in LONG:
        for n in (9, 19, 308, 310, 4300, 4301):
            out.append({"func": "long_digits", "params": {"name": name, "n": n}})
    deep = tier == "thorough"
    for kind, table in (("response", seeds.RESPONSE), ("request", seeds.REQUEST)):
        for name in table:
            for n in range(0, 5 if deep else 3):
                out.append({"func": "whole", "params": {"kind": kind, "name": name, "n": n}})
            tk = "resptrailer" if kind == "response" else "reqtrailer"
            out.append({"func": "whole", "params": {"kind": tk, "name": name, "n": 1}})
            for i in range(len(table[name])):
                if len(table[name][i]) < 2:
                    continue
                out.append({"func": "edit", "params": {"kind": kind, "name": name, "i": i, "delete": 0, "insert": 1}})
                out.append({"func": "edit", "params": {"kind": kind, "name": name, "i": i, "delete": 2, "insert": 2}})
                out.append({"func": "edit", "params": {"kind": kind, "name": name, "i": i, "delete": 1, "insert": 0}})
                if deep:
                    out.append({"func": "edit", "params": {"kind": kind, "name": name, "i": i, "delete": 1, "insert": 3}})
            out.append({"func": "pair", "params": {"kind": kind, "name": name, "i": 0, "n": 1}})
            out.append({"func": "edit", "params": {"kind": tk, "name": name, "i": 0, "delete": 1, "insert": 1}})
    return out


BUDGET = {"quick": 150, "thorough": 800}
CONTINUE = True
