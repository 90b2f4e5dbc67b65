"""T03: no text from a message becomes markup in a note's detail."""
from harness import lib, seeds
from httplint.i18n import set_locale
from httplint.note import Note

BOUNDS = {
    "quick": "each skeleton of harness/seeds.py with 0..1 arbitrary bytes, the marker '<zq>' and 0..1 arbitrary bytes inserted at every position (English; one byte in the other four locales); the marker after percent-, backslash- and Display-String-encoded line breaks and backticks in the fields that decode them; method, target, status line, field name and trailer with the marker between arbitrary bytes; a two-variable note with every 2+2 byte values",
    "thorough": "as quick with up to 2 arbitrary bytes before and after the marker, and every locale",
}
OUTSIDE = "markup that is formed from more than one part of a message; payloads that differ from '<zq>' and its neighbours (every value is sanitised as a whole, so the marker stands for any text); the Markdown library itself (modelled, and run for real when path models are replayed)"
ASSUMPTIONS = ["markdown.Markdown.convert is modelled by sx/mdmodel.py (blocks, lists, indented code, code spans); every replayed path compares with the real library"]
BUDGET = {"quick": 250, "thorough": 800}
CONTINUE = True

LOCALES = ["en", "es", "fr", "ja", "zh"]
MARK = b"<zq>"


def setup_symbolic():
    from sx import mdmodel

    mdmodel.install()


def look(chk, msg):
    for n in lib.all_notes(msg):
        d = n.detail
        chk("<zq" not in str(d), "markup from the message in a note's detail", note=type(n).__name__, detail=d)
    chk.obs("notes", lib.names(msg))


def mark(inp, value, pos, before, after):
    return value[:pos] + inp.bytes("b", before) + MARK + inp.bytes("a", after) + value[pos:]


def lint(kind, name, value):
    if kind == "response":
        return lib.response([(name, value)])
    return lib.request([(name, value)])


def edit(inp, chk, kind, name, i, before, after, locale="en"):
    value = (seeds.RESPONSE if kind == "response" else seeds.REQUEST)[name][i]
    pos = inp.choice("pos", range(0, len(value) + 1))
    if locale == "any":
        locale = inp.choice("locale", LOCALES)
    with set_locale(locale):
        look(chk, lint(kind, name.encode(), mark(inp, value, pos, before, after)))


DECODED = [
    # (field, template); {} is an encoded break followed by the marker
    ("Cache-Status", b'A; detail=%"{}"; foo=%"{}"'),
    ("Cache-Status", b'%"{}"; key="{}"; fwd="{}"; ttl="{}"'),
    ("Proxy-Status", b'A; error=%"{}"; details="{}"; foo=%"{}"'),
    ("Permissions-Policy", b'a=%"{}"; report-to=%"{}", b=(%"{}")'),
    ("Use-As-Dictionary", b'match=%"{}", id=%"{}", type=%"{}", match-dest=(%"{}")'),
    ("Use-As-Dictionary", b'match="{}", id="{}", type="{}", match-dest=("{}")'),
    ("Cross-Origin-Opener-Policy", b'%"{}"; report-to=%"{}"'),
    ("Cross-Origin-Embedder-Policy", b'%"{}"; report-to=%"{}"'),
    ("Reporting-Endpoints", b'a=%"{}", b="{}"'),
    ("Accept-CH", b'%"{}", "{}"'),
    ("Cache-Groups", b'%"{}", "{}"'),
    ("CDN-Cache-Control", b'max-age=%"{}", private="{}", foo=%"{}"'),
    ("Deprecation", b'%"{}"'),
    ("Speculation-Rules", b'%"{}", "{}"'),
    ("Accept-Query", b'%"{}", "{}"'),
    ("Content-Disposition", b"attachment; filename*=UTF-8''{}; x*=UTF-8''{}"),
    ("Content-Disposition", b'{}; filename="{}"; filename="{}"'),
    ("Content-Type", b"text/plain; charset=\"{}\"; a*=UTF-8''{}; b*=UTF-9''{}"),
    ("Link", b"<{}>; rel=\"{}\"; title*=UTF-8''{}; as={}"),
    ("Report-To", b'{{"group":"{}","max_age":"{}","endpoints":[{{"url":"https://e/{}"}}],"{}":1}}'),
    ("Report-To", b'{{"group":1,"max_age":1,"endpoints":[{{"url":"http:{}","priority":"{}","weight":"{}"}}, "{}"]}}'),
    ("NEL", b'{{"report_to":"{}","max_age":"{}","success_fraction":"{}","{}":"{}"}}'),
    ("NEL", b'{{"report_to":"{}","max_age":1,"request_headers":["{}"],"response_headers":"{}"}}'),
    ("Set-Cookie", b"{}={}; Path={}; Expires={}; Domain={}; {}={}; Max-Age={}; SameSite={}"),
    ("Cache-Control", b'max-age="{}", private="{}", {}="{}"'),
    ("Location", b"http://{}/{}?{}#{}"),
    ("Server-Timing", b'{};desc="{}";dur="{}"'),
    ("Alt-Svc", b'{}="{}"; ma="{}"; {}="{}"'),
    ("Strict-Transport-Security", b'max-age="{}"; {}="{}"; {}'),
    ("Content-Security-Policy", b"{} {}; report-to {}; script-src '{}'; report-uri {}"),
]
ENCODED = [b"%0a%0a<zq>", b"%0d%0d<zq>", b"%60<zq>", b"\\n\\n<zq>", b"\\r\\r<zq>", b"\\u0060<zq>", b"\\`<zq>", b"%3czq>", b"\\u003czq>", b"%02<zq>", b"`<zq>", b"\n\n<zq>", b"\r\r<zq>", b"%0a%0a<zq>%0a%0a", b" <zq> "]


def decoded(inp, chk, i):
    """Every encoded form in one place of a field whose parser decodes it, others plain or marked."""
    name, template = DECODED[i]
    parts = template.replace(b"{{", b"\x00").replace(b"}}", b"\x01").split(b"{}")
    e = inp.choice("e", ENCODED)
    k = inp.choice("k", range(len(parts) - 1))
    other = inp.choice("other", [b"x", b"<zq>", None])
    value = parts[0]
    for j in range(1, len(parts)):
        value = value + (inp.bytes("b", 1) + e if j - 1 == k else (e if other is None else other)) + parts[j]
    value = value.replace(b"\x00", b"{").replace(b"\x01", b"}")
    look(chk, lib.response([(name.encode(), value)]))


def topline_response(inp, chk, where, before, after):
    t = inp.bytes("b", before) + MARK + inp.bytes("a", after)
    r = lib.HttpResponseLinter(start_time=1000000000)
    r.process_response_topline(t if where == "version" else b"HTTP/1.1", t if where == "status" else b"200", t if where == "phrase" else b"OK")
    r.base_uri = "http://h.i/"
    r.process_headers([])
    r.finish_content(True)
    look(chk, r)


def topline_request(inp, chk, where, before, after):
    t = inp.bytes("b", before) + MARK + inp.bytes("a", after)
    r = lib.HttpRequestLinter(start_time=1000000000)
    uri = {"uri": t, "path": b"http://h.i/" + t, "host": b"http://" + t + b"/", "query": b"/?" + t, "scheme": t + b"://h.i/"}.get(where, b"/")
    r.process_request_topline(t if where == "method" else b"GET", uri, t if where == "version" else b"HTTP/1.1")
    r.process_headers([(b"Referer", b"https://h.i/")])
    r.finish_content(True)
    look(chk, r)


NAMES = [b"", b"foo", b"x-foo", b"content_", b"content-type", b"age", b"cookie"]


def field_name(inp, chk, i, before, after, trailer):
    base = NAMES[i]
    name = (base + inp.bytes("b", before) + MARK + inp.bytes("a", after)) if inp.bool("end") else (inp.bytes("b", before) + MARK + inp.bytes("a", after) + base)
    h = [(name, b"a")]
    for extra in ([], [(b"Connection", name), (b"Vary", name), (b"Trailer", name), (b"Access-Control-Allow-Headers", name), (b"Cache-Control", b'private="' + name + b'"')]):
        look(chk, lib.response(extra if trailer else h + extra, trailers=h if trailer else None))
        look(chk, lib.request(extra if trailer else h + extra, trailers=h if trailer else None))


PAIRS = [
    ("allow", b"G, G"), ("cache-control", b"a, a"), ("set-cookie", b"a=b; path=/"), ("content-type", b"text/html"), ("location", b"/a"), ("date", b"0"), ("content-length", b"1"),
    ("strict-transport-security", b"max-age=1"), ("content-disposition", b"inline"), ("link", b"<a>; rel=b"), ("etag", b'"a"'), ("via", b"1.1 a"), ("vary", b"a"), ("age", b"1"),
]


def two(inp, chk, i, n):
    """The same field twice: arbitrary bytes on one line, the marker on the other."""
    name, v = PAIRS[i]
    x = v + inp.bytes("x", n)
    y = v + inp.bytes("b", 1) + MARK
    hdrs = [(name.encode(), x), (name.encode(), y)]
    if inp.bool("swap"):
        hdrs.reverse()
    look(chk, lib.response(hdrs))


class TWO(Note):
    """A note with several variables in code spans, a list item, and a code block."""

    _summary = "x"
    _text = "a `%(a)s` b `%(b)s` c\n\n- `%(b)s`\n- `%(a)s`\n\nd:\n\n    %(b)s\n\n`%(a)s` `%(b)s`"


def variables(inp, chk, n, m):
    """Any two values in one note: neither escapes its code span or block."""
    a = inp.text("x", n)
    b = inp.text("b", m) + "<zq>" + inp.text("a", m)
    if inp.bool("swap"):
        a, b = b, a
    note = TWO("s", a=a, b=b)
    parent = TWO("s", a=b, b=a)
    child = parent.add_child(TWO, c=1)
    for k in (note, child):
        chk("<zq" not in str(k.detail), "markup from the message in a note's detail", note="TWO", detail=k.detail)


def tasks(tier):
    deep = tier == "thorough"
    out = [{"func": "variables", "params": {"n": n, "m": m}} for n in range(4 if deep else 3) for m in range(3 if deep else 2)]
    for i in range(len(DECODED)):
        out.append({"func": "decoded", "params": {"i": i}, "weight": 2})
    for i in range(len(PAIRS)):
        out.append({"func": "two", "params": {"i": i, "n": 2 if deep else 1}})
    for w in ("version", "status", "phrase"):
        for b, a in ((0, 0), (1, 1), (2, 0)):
            out.append({"func": "topline_response", "params": {"where": w, "before": b, "after": a}})
    for w in ("method", "version", "uri", "path", "host", "query", "scheme"):
        for b, a in ((0, 0), (1, 1), (2, 0)):
            out.append({"func": "topline_request", "params": {"where": w, "before": b, "after": a}})
    for i in range(len(NAMES)):
        for tr in (False, True):
            for b, a in ((0, 0), (1, 0), (0, 1)):
                out.append({"func": "field_name", "params": {"i": i, "before": b, "after": a, "trailer": tr}})
    for kind, table in (("response", seeds.RESPONSE), ("request", seeds.REQUEST)):
        for name in table:
            for i in range(len(table[name])):
                sizes = ((1, 0), (0, 1)) if not deep else ((1, 0), (0, 1), (2, 0), (0, 2), (1, 1))
                for b, a in sizes:
                    out.append({"func": "edit", "params": {"kind": kind, "name": name, "i": i, "before": b, "after": a}})
                for loc in ["any"] if not deep else LOCALES[1:]:
                    out.append({"func": "edit", "params": {"kind": kind, "name": name, "i": i, "before": 0 if not deep else 1, "after": 0, "locale": loc}})
    return out
