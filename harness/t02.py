"""T02: every note can be rendered, in every locale."""
from harness import lib, seeds, t01
from harness.fields import KNOWN
from httplint.i18n import set_locale

BOUNDS = {
    "quick": "messages as in T01: each skeleton of harness/seeds.py in 8 response or 12 request contexts with 0..1 arbitrary bytes before it, fields that are interpreted together, every kind of Structured Field item in every place, very large numbers, every status code, arbitrary methods, targets and names (2 bytes), one arbitrary byte inserted in every skeleton, scenes that produce the remaining notes; each in one of the five locales",
    "thorough": "as quick, with two bytes replaced in every skeleton and every value of up to 3 bytes of every field",
}
OUTSIDE = "notes that none of these messages produces (the notes produced are counted in the evidence); that the rendered text is a good translation"
ASSUMPTIONS = ["markdown.Markdown.convert is modelled by sx/mdmodel.py; every replayed path uses the real library"]
BUDGET = {"quick": 250, "thorough": 800}
CONTINUE = True

LOCALES = ["en", "es", "fr", "ja", "zh"]
LOCALE = ["en"]


def setup_symbolic():
    from sx import mdmodel

    mdmodel.install()


def render(chk, msg):
    with set_locale(LOCALE[0]):
        for n in lib.all_notes(msg):
            name = type(n).__name__
            chk.reach(name)
            s = n.summary
            d = n.detail
            chk(isinstance(s, str) and isinstance(d, str), "summary and detail are text", note=name)
            chk(len(s) > 0, "the summary is empty", note=name)
            chk(len(str(d).strip()) > 0 if n._text.strip() else True, "the detail is empty", note=name)
            chk(isinstance(n.subject, str) and n.level is not None and n.category is not None, "note without subject, level or category", note=name)


PARTS = {"", "message", "method", "status", "uri", "field-block"}


def subjects(chk, msg):
    """Notes are about the message, its first line, a field or one of its lines."""
    lines = {"offset-%d" % i for s in (msg.headers, msg.trailers) for i in range(len(s.text))}
    odd = []
    for n in msg.notes:
        for child in n.subnotes:
            if child.subject != n.subject:
                odd.append([type(child).__name__, child.subject])
        for part in n.subject.split(" "):
            if part not in PARTS and part not in lines:
                if part[:6] != "field-" or part[6:] not in KNOWN and part[6:] not in msg.headers.parsed and part[6:] not in msg.trailers.parsed:
                    odd.append([type(n).__name__, part])
    chk.eq(odd, [], "notes' subjects are parts of the message")


def look(chk, msg):
    render(chk, msg)
    subjects(chk, msg)


t01.HOOK[0] = render


def run(inp, chk, func, args, locale):
    LOCALE[0] = inp.choice("locale", LOCALES) if locale == "any" else locale
    t01.HOOK[0] = look if func in ("edit", "context", "combo", "pair") else render  # fields' names are known
    getattr(t01, func)(inp, chk, **args)


D = (b"Date", b"Sun, 09 Sep 2001 01:46:40 GMT")
PRE = {"request": {"method": b"OPTIONS", "headers": [(b"Origin", b"https://e.com"), (b"Access-Control-Request-Method", b"PUT"), (b"User-Agent", b"a")]}}
GZ = b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\x03"
SCENES = [
    # (kind, headers, other arguments): messages that produce the notes the skeletons don't
    ("response", [D, (b"Access-Control-Allow-Origin", b"https://e.com"), (b"Access-Control-Allow-Credentials", b"yes")], PRE),
    ("response", [D, (b"Access-Control-Allow-Origin", b"*")], PRE),
    ("response", [D, (b"Access-Control-Allow-Origin", b"null")], PRE),
    ("request", [(b"Origin", b"https://e.com"), (b"Access-Control-Request-Method", b"PUT"), (b"Age", b"1"), (b"ETag", b'"a"')], {"method": b"OPTIONS"}),
    ("response", [D, (b"Content-Encoding", b"gzip")], {"content": GZ + b"\xff\xff\xff"}),
    ("response", [D, (b"Content-Encoding", b"gzip")], {"content": b"nogzip"}),
    ("response", [D, (b"Content-Encoding", b"br")], {"content": b"\xff\xff\xff\xff"}),
    ("response", [D, (b"Content-Encoding", b"deflate")], {"content": b"\xff\xff\xff\xff"}),
    ("response", [D, (b"Cache-Control", b"max-age=1, max-age=2, no-store, must-revalidate, min-fresh=1, no-cache, public")], {}),
    ("response", [D, (b"Cache-Control", b"pre-check=0, post-check=0")], {}),
    ("response", [D, (b"Cache-Control", b"pre-check=1, post-check=2")], {}),
    ("response", [D, (b"Cache-Control", b"pre-check=2, post-check=0")], {}),
    ("response", [D, (b"Cache-Control", b"pre-check=3, post-check=2")], {}),
    ("response", [D, (b"Cache-Control", b"pre-check=3")], {}),
    ("response", [D, (b"Content-Type", b"application/json")], {"content": b'{"a": "\xe9\xe8\xea tr\xe8s fran\xe7ais"}'}),
    ("response", [D, (b"Content-Type", b"text/plain; charset=utf-8")], {"content": b"\xe9\xe8\xea tr\xe8s"}),
    ("response", [D, (b"Content-Type", b"text/plain; charset=iso-8859-1")], {"content": "d\u00e9j\u00e0 vu \u4e2d\u6587\u4e2d\u6587".encode("utf-8")}),
    ("response", [D, (b"Content-Type", b"text/html")], {"content": b"\x89PNG\r\n\x1a\n\x00\x00\x00\x0dIHDR"}),
    ("response", [D, (b"Cross-Origin-Embedder-Policy", b"credentialless"), (b"Cross-Origin-Opener-Policy", b"unsafe-none"), (b"Cross-Origin-Resource-Policy", b"cross-origin"), (b"Cross-Origin-Embedder-Policy-Report-Only", b"credentialless")], {}),
    ("response", [D, (b"Cross-Origin-Embedder-Policy", b"unsafe-none"), (b"Cross-Origin-Opener-Policy", b"same-origin-allow-popups"), (b"Cross-Origin-Resource-Policy", b"same-origin")], {}),
    ("response", [D, (b"Cross-Origin-Embedder-Policy", b"require-corp"), (b"Cross-Origin-Opener-Policy", b"same-origin"), (b"Cross-Origin-Embedder-Policy-Report-Only", b"require-corp"), (b"Cross-Origin-Opener-Policy-Report-Only", b"same-origin")], {}),
    ("response", [D, (b"Content-Language", b"en, en")], {}),
    ("response", [D, (b"Content-Range", b"bytes */*")], {"status": b"200"}),
    ("response", [D, (b"Content-Range", b"bytes */12")], {"status": b"206"}),
    ("response", [D, (b"Content-Range", b"bytes */12")], {"status": b"416"}),
    ("response", [D, (b"Clear-Site-Data", b"")], {}),
    ("response", [D, (b"Content-Security-Policy", b"script-src 'unsafe-eval' 'unsafe-inline' http://a.b/; default-src *")], {}),
    ("request", [(b"Expect", b"100-continue")], {"version": b"HTTP/1.0"}),
    ("response", [D] + [(b"X-F%d" % i, b"a" * 4000) for i in range(9)], {}),
    ("response", [D, (b"X-Frame-Options", b"SAMEORIGIN"), (b"Server", b"a" * 300), (b"Sunset", b"Sun, 09 Sep 2001 01:46:00 GMT")], {}),
    ("response", [D, (b"Cache-Control", b"no-cache"), (b"ETag", b'"a"')], {}),
    ("response", [D, (b"Cache-Control", b"no-cache")], {}),
    ("response", [D, (b"Cache-Control", b"max-age=10, must-revalidate")], {}),
    ("response", [D, (b"Cache-Control", b"max-age=10, must-revalidate"), (b"Age", b"20")], {}),
    ("response", [D, (b"Cache-Control", b"max-age=10, proxy-revalidate"), (b"Age", b"20")], {}),
    ("response", [D, (b"Cache-Control", b"max-age=10, stale-while-revalidate=10, public")], {}),
    ("response", [D, (b"Cache-Control", b"private, public")], {}),
    ("response", [D, (b"Cache-Control", b"s-maxage=10")], {"status": b"599"}),
    ("response", [D], {"request": {"method": b"PUT", "headers": [(b"Expect", b"100-continue")]}, "status": b"201"}),
    ("response", [D], {"request": {"method": b"GET", "headers": [(b"Authorization", b"Basic YQ==")]}, "status": b"201"}),
    ("response", [D, (b"Cache-Control", b"public")], {"request": {"method": b"GET", "headers": [(b"Authorization", b"Basic YQ==")]}}),
    ("response", [D, (b"Strict-Transport-Security", b"max-age=99999999; includeSubDomains; preload")], {"base_uri": "https://h.i/"}),
    ("response", [D, (b"Link", b'<a>; rel=a; anchor=":x y"; type="a"; type="b"; title*=a')], {}),
    ("response", [D, (b"Content-Type", b"application/" + b"a" * 200 + b";a*=''x")], {}),
    ("response", [D, (b"Permissions-Policy", b"a=*, b=(*)"), (b"Referrer-Policy", b"")], {}),
    ("response", [D, (b"Set-Cookie", b"a=b; path=/; path=/a; httponly; max-age="), (b"Set-Cookie", b"c=d; samesite=none"), (b"Set-Cookie", b"e=f; Secure; HttpOnly; SameSite=Lax; Version=1"), (b"Set-Cookie", b"__Host-a=b; secure; path=/; domain=a"), (b"Set-Cookie", b"g=" + b"h" * 5000)], {"base_uri": "https://h.i/"}),
    ("response", [D, (b"Vary", b"User-Agent, Negotiate, a")], {}),
    ("request", [], {"uri": b"http://a/" + b"b" * 9000}),
    ("response", [D, (b"Vary", b"*"), (b"Deprecation", b"@99999999999"), (b"Sunset", b"Sun, 09 Sep 2031 01:46:00 GMT")], {}),
]


def scene(inp, chk, i, n):
    """A message made to produce rare notes, with n arbitrary bytes in front of one field."""
    kind, headers, kw = SCENES[i]
    kw = dict(kw)
    LOCALE[0] = inp.choice("locale", LOCALES) if n == 0 else "en"
    if n:
        k = inp.choice("k", range(len(headers))) if len(headers) < 8 else 0
        if not headers:
            return
        w = inp.bytes("w", n)
        headers = [(f, w + v if j == k else v) for j, (f, v) in enumerate(headers)]
    if kind == "request":
        r = lib.HttpRequestLinter(start_time=1000000000)
        r.process_request_topline(kw.get("method", b"GET"), kw.get("uri", b"http://h.i/"), kw.get("version", b"HTTP/1.1"))
        r.process_headers(headers)
        r.finish_content(True)
        look(chk, r)
        return
    req = kw.pop("request", None)
    status = kw.pop("status", b"200")
    r = lib.HttpResponseLinter(start_time=1000000000)
    r.base_uri = kw.get("base_uri", "http://h.i/j")
    if req:
        r.request = lib.request(req["headers"], method=req["method"])
    r.process_response_topline(b"HTTP/1.1", status, b"OK")
    r.process_headers(headers)
    if "content" in kw:
        r.feed_content(kw["content"])
    r.finish_content(True)
    look(chk, r)
    if req:
        look(chk, r.request)


def statuses(inp, chk, rel):
    """Every status code, with and without a request, Allow and Expect."""
    LOCALE[0] = inp.choice("locale", LOCALES)
    r = lib.HttpResponseLinter(start_time=1000000000)
    if rel:
        r.request = lib.request([] if rel == 1 else [(b"Expect", b"100-continue"), (b"Accept", b"a/b"), (b"If-Match", b"*"), (b"Upgrade", b"a")], method=b"GET")
    code = inp.bytes("code", 3, alphabet="0123456789")
    r.process_response_topline(b"HTTP/1.1", code, b"x")
    r.process_headers([(b"Allow", b"GET"), (b"Content-Type", b"a/b")] if rel == 1 else [])
    r.finish_content(True)
    look(chk, r)


KEEP = {"combo", "topline_response", "topline_request", "field_name", "near_name", "uri", "uri_whole", "sf_values", "long_digits", "context"}


def tasks(tier):
    deep = tier == "thorough"
    out = [{"func": "scene", "params": {"i": i, "n": n}} for i in range(len(SCENES)) for n in (0, 1)]
    out += [{"func": "statuses", "params": {"rel": r}} for r in (0, 1, 2)]
    for t in t01.tasks("quick"):
        f, p = t["func"], t["params"]
        if f in KEEP:
            locale = "any" if f in ("context", "sf_values", "topline_request", "field_name") else "en"
            if not deep and f in ("uri", "topline_response", "near_name"):
                continue
        elif f == "edit" and p["insert"] == 1 and p["delete"] == 0:
            locale = "en"
        elif deep and f in ("edit", "whole", "pair"):
            locale = "en"
        else:
            continue
        out.append({"func": "run", "params": {"func": f, "args": p, "locale": locale}, "weight": t.get("weight", 1)})
    return out
