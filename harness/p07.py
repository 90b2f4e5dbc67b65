"""P07: references (Location, Link, Referer, Content-Disposition) denote what they say, and are judged."""
import re

from harness import fields, lib
from harness.p06 import lines

# --- Location

BASE = "http://a/b/c/d;p?q"
# RFC 3986 section 5.4.1
REFS = [("g", "http://a/b/c/g"), ("./g", "http://a/b/c/g"), ("g/", "http://a/b/c/g/"), ("/g", "http://a/g"), ("//g", "http://g"), ("?y", "http://a/b/c/d;p?y"), ("g?y", "http://a/b/c/g?y"),
        ("#s", "http://a/b/c/d;p?q#s"), ("g#s", "http://a/b/c/g#s"), (";x", "http://a/b/c/;x"), (".", "http://a/b/c/"), ("..", "http://a/b/"), ("../g", "http://a/b/g"), ("../..", "http://a/"), ("../../g", "http://a/g")]
DEFINED = [201, 300, 301, 302, 303, 305, 307, 308]


def status(inp, chk):
    """Any status."""
    s = inp.bytes("status", 3, alphabet="0123456789")
    inp.assume(s[0] >= 50)
    inp.assume(s[0] <= 53)
    r = lib.response([(b"Location", b"http://www.example.com/")], status=s)
    code = int(s)
    defined = code == 201 or code == 300 or code == 301 or code == 302 or code == 303 or code == 305 or code == 307 or code == 308
    chk.eq(lib.count(r, "LOCATION_UNDEFINED"), 0 if defined else 1, "Location has a meaning in some statuses only")
    chk.reach("defined" if defined else "undefined")


def relative(inp, chk):
    ref, full = inp.choice("ref", REFS)
    r = lib.response([(b"Location", ref.encode())], status=b"301", base_uri=BASE)
    chk.eq(lib.count(r, "LOCATION_NOT_ABSOLUTE"), 1, "relative references are noticed")
    chk.eq(lib.find(r, "LOCATION_NOT_ABSOLUTE").vars["full_uri"], full, "the URI that a reference denotes")
    chk.reach("relative")


def absolute(inp, chk, n, before, after):
    """Any text: it's absolute when it has a scheme."""
    text = before + inp.text("t", n, alphabet="hT:/?#a1+.@%") + after
    r = lib.response([(b"Location", text.encode())], status=b"301", base_uri=BASE)
    inp.assume(lib.count(r, "BAD_SYNTAX") == 0)
    scheme = re.match("[A-Za-z][A-Za-z0-9+.-]*:", text)
    chk.eq(lib.count(r, "LOCATION_NOT_ABSOLUTE"), 0 if scheme else 1, "references with a scheme are absolute; others aren't")
    chk.eq(r.headers.parsed["location"], text, "the reference is what was sent")
    chk.reach("absolute" if scheme else "not-absolute")


# --- Link

PARAMS = [("rel", "next"), ("rel", "preload"), ("REL", "Preconnect DNS-prefetch"), ("rev", "a"), ("anchor", "#foo"), ("anchor", "{a}"), ("anchor", "http://x/"), ("type", "text/html"), ("type", "text"), ("title", "a,b;c=\"d\""), ("hreflang", "en"), ("as", "style")]
TARGETS = ["/a", "http://example.com/a,b;c=d", "ftp://example.com/", "", "HTTPS://x", "javascript:a", "//x/y"]


def quoted(text):
    return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'


def simple(value):
    return re.fullmatch("[A-Za-z0-9!#$%&'*+.^_`|~-]+", value)


def judge(target, params, base="http"):
    """The parameters' values, notes, and hints of a link."""
    values, notes = {}, []
    for k, v in params:
        k = k.lower()
        if k in values:
            notes.append("PARAM_REPEATS")
        values[k] = v
    if "rev" in values:
        notes.append("LINK_REV")
    if values.get("anchor") == "{a}":
        notes.append("LINK_BAD_ANCHOR")
    if values.get("type") == "text":
        notes.append("LINK_BAD_TYPE")
    scheme = re.match("([A-Za-z]+):", target)
    web = (base if scheme is None else scheme.group(1).lower()) in ("http", "https")
    hints = []
    for w in values.get("rel", "").lower().split(" "):
        if w in ("preload", "preconnect", "dns-prefetch"):
            if web:
                hints.append(w)
            else:
                notes.append("LINK_BAD_HINT_TARGET")
    return values, notes, hints


def check_links(chk, links, headers, kind, base="http"):
    send = lib.response if kind == "response" else lib.request
    r = send(headers, base_uri=base + "://www.example.com/")
    want, hints = [], []
    values = []
    for target, params in links:
        v, ns, hs = judge(target, params, base)
        values.append([target, [[k, w] for k, w in v.items()]])
        want.extend(ns)
        hints.extend([[h, target] for h in hs])
    got = [[t, [[k, w] for k, w in p.items()]] for t, p in r.headers.parsed["link"]]
    chk.eq(got, values, "links have the targets and parameters that were sent")
    ns = [n for n in lib.all_names(r) if n[:5] == "LINK_" or n == "PARAM_REPEATS"]
    chk.eq(sorted(ns), sorted(want + (["LINK_RESOURCE_HINTS"] if hints else [])), "links' problems, and no others, are reported")
    if hints:
        names = [h for h in ("preload", "preconnect", "dns-prefetch") if h in [a for a, b in hints]]
        chk.eq(lib.find(r, "LINK_RESOURCE_HINTS").vars["hints"], ", ".join(names), "hints are noticed")
        detail = ["- `" + h + "`: " + ", ".join(["`" + t + "`" if t else "" for a, t in hints if a == h]) for h in names]
        if all([t for a, t in hints]):
            chk.eq(str(lib.find(r, "LINK_RESOURCE_HINTS").vars["detail_lines"]), "\n".join(detail), "with their targets")
        chk.reach("hints")
    chk.reach("link")


def link(inp, chk, count, layout, kind):
    """A link with any parameters, in any order."""
    target = inp.choice("target", TARGETS)
    params = [inp.choice("p" + str(i), PARAMS) for i in range(count)]
    text = "<" + target + ">"
    quote = inp.bool("quote")
    for k, v in params:
        text = text + (";", "; ", " ; ")[layout] + k + (" = " if layout == 2 else "=") + (v if simple(v) and not quote else quoted(v))
    check_links(chk, [(target, params)], [(b"Link", text.encode())], kind, inp.choice("base", ["http", "ftp"]) if count == 1 else "http")


def several(inp, chk, layout):
    """Several links, in several layouts."""
    links = []
    for i in range(2):
        links.append((inp.choice("target" + str(i), TARGETS), [inp.choice("p" + str(i), PARAMS)]))
    check_links(chk, links, [(b"Link", v) for v in lines(["<" + t + ">; " + p[0][0] + "=" + quoted(p[0][1]) for t, p in links], layout)], "response")


def target(inp, chk, n):
    """Any target."""
    text = inp.text("t", n, alphabet="a,;=\"/:h")
    param = inp.choice("p", PARAMS[:3])
    r = lib.response([(b"Link", ("<" + text + ">;" + param[0] + "=" + quoted(param[1]) + ", <b>;rel=x").encode())], base_uri="http://www.example.com/")
    got = [[t, [[k, w] for k, w in p.items()]] for t, p in r.headers.parsed["link"]]
    chk.eq(got, [[text, [[param[0].lower(), param[1]]]], ["b", [["rel", "x"]]]], "any target is read as what it is")
    chk.reach("target")


def rel(inp, chk, n):
    """Any relation."""
    text = inp.text("t", n, alphabet="preloadconETCH-fs ")
    inp.assume(text.strip(" ") == text)
    r = lib.response([(b"Link", b"</a>;rel=\"" + text.encode() + b"\"")])
    words = text.lower().split(" ")
    hint = "preload" in words or "preconnect" in words or "dns-prefetch" in words
    chk.eq(lib.count(r, "LINK_RESOURCE_HINTS"), 1 if hint else 0, "hints are those with the whole relation, in any case")
    chk.reach("hint" if hint else "rel")


# --- Referer

URIS = [("https", "www.example.com", 443, "https://www.example.com/a"), ("https", "www.example.com", 443, "HTTPS://WWW.Example.com:443"), ("https", "www.example.com", 8443, "https://www.example.com:8443/"),
        ("http", "www.example.com", 80, "http://www.example.com/b"), ("http", "www.example.com", 443, "http://www.example.com:443/"), ("https", "example.com", 443, "https://example.com/a?https://www.example.com/"),
        ("wss", "www.example.com", 443, "wss://www.example.com/"), ("ws", "www.example.com", 80, "ws://www.example.com/"), ("https", "www.example.com", 443, "https://me@www.example.com/"), (None, None, None, "/a"), ("about", None, None, "about:blank")]


def referer(inp, chk):
    a = inp.choice("referer", URIS)
    b = inp.choice("target", URIS[:8] + URIS[9:10])
    q = lib.request([(b"Referer", a[3].encode())], uri=b[3].encode())
    secure = a[0] == "https" or a[0] == "wss"
    chk.eq(lib.count(q, "REFERER_SECURE_TO_INSECURE"), 1 if secure and (b[0] == "http" or b[0] == "ws") else 0, "secure referrers on insecure requests are reported")
    chk.eq(lib.count(q, "REFERER_SECURE_TO_DIFFERENT_ORIGIN"), 1 if secure and b[0] and a[:3] != b[:3] else 0, "secure referrers of another origin are reported")
    chk.reach("referer")


def port(inp, chk, n, m):
    """Any ports."""
    a = inp.text("a", n, alphabet="0123456789")
    b = inp.text("b", m, alphabet="0123456789")
    inp.assume(not a or int(a) > 0)
    inp.assume(not b or int(b) > 0)
    sa, sb = inp.choice("schemes", [("https", "https"), ("https", "http"), ("wss", "https"), ("http", "https")])
    q = lib.request([(b"Referer", (sa + "://h" + (":" + a if a else "") + "/x").encode())], uri=(sb + "://H" + (":" + b if b else "") + "/").encode())
    pa = int(a) if a else 443 if sa != "http" else 80
    pb = int(b) if b else 443 if sb != "http" else 80
    other = sa != sb or pa != pb
    chk.eq(lib.count(q, "REFERER_SECURE_TO_DIFFERENT_ORIGIN"), 1 if sa != "http" and other else 0, "ports are compared by number, with their defaults")
    chk.reach("other-port" if pa != pb else "same-port")


# --- Content-Disposition


def disposition(inp, chk, n, param):
    """Any file name, in any kind of disposition."""
    kind = inp.choice("kind", ["attachment", "inline", "Attachment", "form-data", "attachmen"])
    name = inp.text("name", n, alphabet="a%/\\. \"'b") if param else None
    value = kind + ("; " + inp.choice("key", ["filename", "FileName", "name"]) + "=" + quoted(name) if param else "")
    r = lib.response([(b"Content-Disposition", value.encode())])
    key = value[len(kind) + 2:].split("=")[0].lower()
    named = param and key == "filename"
    want = []
    if kind.lower() not in ("attachment", "inline"):
        want.append("DISPOSITION_UNKNOWN")
    if kind.lower() == "attachment" and not named:
        want.append("DISPOSITION_OMITS_FILENAME")
    if named and "%" in name:
        want.append("DISPOSITION_FILENAME_PERCENT")
    if named and ("/" in name or "\\" in name):
        want.append("DISPOSITION_FILENAME_PATH_CHAR")
    chk.eq(sorted([n for n in lib.all_names(r) if n[:12] == "DISPOSITION_"]), sorted(want), "dispositions and file names are judged")
    got = r.headers.parsed["content-disposition"]
    chk.eq([got[0], [[k, v] for k, v in got[1].items()]], [kind.lower(), [[key, name]] if param else []], "the disposition and file name are what was sent")
    chk.reach("disposition")


def disposition_cased(inp, chk, kind):
    """Dispositions in any case."""
    v = fields.anycase(inp, kind)
    r = lib.response([(b"Content-Disposition", v + b"; filename=a")])
    chk.eq(lib.count(r, "DISPOSITION_UNKNOWN"), 0, "dispositions are recognised whatever their case")
    chk.eq(r.headers.parsed["content-disposition"][0], kind, "and are read as lower case")
    r = lib.response([(b"Content-Disposition", v)])
    chk.eq(lib.count(r, "DISPOSITION_OMITS_FILENAME"), 1 if kind == "attachment" else 0, "attachments miss a name whatever their case")


def extended(inp, chk, n):
    """Any extended file name (percent-encoded)."""
    name = inp.choice("c", ["", "%2F", "%5C", "%25", "%41"]) + inp.text("name", n, alphabet="ab.-_~!")
    both = inp.choice("both", [None, "x", "/x", "x\\\\y", "x%2F"])
    parts = ([] if both is None else ["filename=\"" + both + "\""]) + ["filename*=UTF-8''" + name]
    if inp.bool("reverse"):
        parts = parts[::-1]
    r = lib.response([(b"Content-Disposition", ("attachment; " + "; ".join(parts)).encode())])
    path = name[:3] == "%2F" or name[:3] == "%5C" or both == "/x" or both == "x\\\\y"
    chk.eq(lib.count(r, "DISPOSITION_FILENAME_PATH_CHAR"), 1 if path else 0, "path characters in extended names are reported")
    chk.eq(lib.count(r, "DISPOSITION_FILENAME_PERCENT"), 1 if both == "x%2F" else 0, "percents in extended names aren't")
    chk.eq(lib.count(r, "DISPOSITION_OMITS_FILENAME"), 0 if both is not None else 1, "a plain name is missed")
    chk.reach("extended")


def tasks(tier):
    deep = tier == "thorough"
    out = [dict(func="status", params={}), dict(func="relative", params={}), dict(func="referer", params={})]
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        for before, after in (("", ""), ("ht", "//x"), ("", "b:/c"), ("/", "")):
            out.append(dict(func="absolute", params=dict(n=n, before=before, after=after), weight=3 ** n))
    for kind in ("response", "request"):
        for layout in (0, 1, 2):
            if kind == "request" and layout and not deep:
                continue
            for count in (0, 1, 2, 3) if deep else (0, 1, 2):
                out.append(dict(func="link", params=dict(count=count, layout=layout, kind=kind), weight=10 ** count))
    for layout in (0, 1, 2, 3):
        out.append(dict(func="several", params=dict(layout=layout), weight=50))
    for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4):
        out.append(dict(func="target", params=dict(n=n), weight=3 ** n))
    for n in (7, 10, 12):
        out.append(dict(func="rel", params=dict(n=n), weight=5))
    for n in (0, 1, 2, 3, 4):
        for m in (0, 2, 3):
            out.append(dict(func="port", params=dict(n=n, m=m)))
    out.append(dict(func="disposition", params=dict(n=0, param=False)))
    for n in (1, 2, 3, 4) if deep else (1, 2, 3):
        out.append(dict(func="disposition", params=dict(n=n, param=True), weight=4 ** n))
    for kind in ("attachment", "inline"):
        out.append(dict(func="disposition_cased", params=dict(kind=kind)))
    for n in (1, 2, 3):
        out.append(dict(func="extended", params=dict(n=n)))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["defined", "undefined", "relative", "absolute", "not-absolute", "link", "hints", "target", "hint", "rel", "referer", "other-port", "same-port", "disposition", "extended"]
BOUNDS = {
    "quick": "all statuses from 200 to 599; the 15 relative references of RFC 3986's normal examples; up to 3 arbitrary characters (of 12) in 4 places of a reference; 7 targets with any two of 12 parameters, or two links, in all layouts; targets of up to 4 arbitrary characters; relations of up to 12; 11 referrers on 9 targets, and ports of up to 4 digits; file names of up to 3 characters",
    "thorough": "4 arbitrary characters in references and file names, 5 in targets, and three parameters",
}
OUTSIDE = "whether what has Location's syntax is a reference (F04); which of several parameters of the same name counts (httplint takes the last), and that hreflang can be repeated; references against bases other than RFC 3986's; referrers on requests whose target isn't a URI"
ASSUMPTIONS = []
