"""F04: field values that don't have their field's syntax are reported, and no others."""
import re

from harness import lib, seeds
from harness.fields import REQUEST_ONLY
from harness.grammar import ELEMENT, members, valid

ODD = [0x0a, 0x0b, 0x0c, 0x0d, 0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0]  # whitespace to some, and not in field values
BYTES = [c for c in range(256) if c not in ODD]
REQ = [x.lower() for x in REQUEST_ONLY] + ["te"]
# comments nest, and letters' case in words isn't claimed
SKIP = {"user-agent": b"()\\", "server": b"()\\", "via": b"()\\", "from": b"()\\\"[]:;, \t<>"}


def alphabet(name):
    skip = SKIP.get(name, b"")
    return [c for c in BYTES if c not in skip]


def send(name, lines):
    fields = [(name.encode(), v) for v in lines]
    return lib.request(fields) if name in REQ else lib.response(fields)


def judge(inp, chk, name, lines):
    division = ELEMENT[name][0]
    r = send(name, lines)
    want, good = 0, 0
    texts = []
    for l in lines if division != "one" else lines[:1]:
        for m in members(l.decode("latin-1"), division):
            texts.append(m)
            if valid(m, name):
                good += 1
            else:
                want += 1
    plain = lib.count(r, "BAD_SYNTAX")
    notes = [n for n in r.notes if type(n).__name__ == "BAD_SYNTAX_DETAILED"]
    chk.eq(plain + len(notes), want, "members with another syntax are reported, each once")
    for n in notes:
        value = n.vars["value"].strip()
        problem = n.vars["problem"]
        i = int(re.search(r"found at position ([0-9]+):", problem).group(1)) - 1
        chk.eq(problem[: len("The invalid character '") + 1], "The invalid character '" + value[i], "the character shown is the one at the position")
        chk(valid(value[:i], name) or (i == 0 and ELEMENT[name][0] == "etags"), "what comes before the reported character is valid")
    if notes:
        chk.reach("detailed")
    if plain:
        chk.reach("plain")
    if good:
        chk.reach("valid")


def whole(inp, chk, name, n):
    """Every value of n bytes."""
    judge(inp, chk, name, [inp.bytes("v", n, alphabet=alphabet(name))])


def edit(inp, chk, name, i, delete, insert):
    """A valid value with some bytes replaced by any others."""
    v = skeleton(name)[i]
    pos = inp.choice("pos", range(0, len(v) - delete + 1))
    w = inp.bytes("w", insert, alphabet=alphabet(name)) if insert else b""
    v = v[:pos] + w + v[pos + delete:]
    if name == "content-disposition":
        inp.assume(re.search(rb"[ \t]=|=[ \t]", v) is None)  # RFC 6266 allows implied whitespace
    judge(inp, chk, name, [v])


def lines(inp, chk, name, n):
    """Two lines, with any bytes at the border."""
    v = skeleton(name)[0]
    a = v + inp.bytes("a", n, alphabet=alphabet(name))
    b = inp.bytes("b", n, alphabet=alphabet(name)) + v
    if name == "content-disposition":
        inp.assume(re.search(rb"[ \t]=|=[ \t]", a) is None)
    judge(inp, chk, name, [a, b])


EXTRA = {
    "content-language": [b"zh-cmn-Hans-CN, de-1996-u-co-phonebk-x-a", b"i-klingon, x-a"],
    "host": [b"[1::8:9.10.11.250]:80", b"a%20b.c"],
    "location": [b"http://u:p@[::1]:80/a/b;c?d=e#f", b"a:b/c", b"//h?q", b"../x%41#"],
    "referer": [b"http://a/b?c", b"/a/b?c"],
    "content-location": [b"http://a/b?c", b"/a/b?c"],
    "expect": [b'a=b; c="d", 100-continue'],
    "alt-svc": [b'h2=":443"; ma=60;persist="1", h3="a"'],
    "te": [b'a;b="c";q=0.5, trailers'],
    "accept": [b'a/b;c="d,e";q=0.25, c/*'],
    "www-authenticate": [b'Basic, Digest realm="a, b", qop=auth, Foo abc==', b"A b=c, d=e , F"],
    "authorization": [b'Digest realm="a, b", qop=auth', b"Foo a=b,, c = d"],
    "x-frame-options": [b"ALLOW-FROM http://a.b:80", b"sameorigin"],
    "strict-transport-security": [b'max-age="1";; a = b;'],
    "server": [b"a/b c"],
    "via": [b"1.1 test, HTTP/1.0 [::1]:8, 2 a"],
    "from": [b"web.a@e.org", b"<a@b.c>"],
    "if-match": [b'"a,b" , W/"", "c\\"'],
    "if-none-match": [b'W/"a\\", *'],
    "etag": [b'W/"a"'],
    "content-md5": [b"Q2hlY2sgSW50ZWdyaXR5IQ=="],
    "if-range": [b"Sunday, 06-Nov-94 08:49:37 GMT"],
    "retry-after": [b"Sun Nov  6 08:49:37 1994"],
    "link": [b"<http://[::1]/a,b;c>;rel=\"a,b\" ; x, <>"],
    "content-security-policy": [b'a b,c;;d e; f-1'],
    "cache-control": [b'private="b,\\"c", a'],
    "clear-site-data": [b'"cache", "a,b"'],
    "keep-alive": [b'timeout=5, a="b,c"'],
    "transfer-encoding": [b'a ; b = "c,d";e=f, chunked'],
    "accept-language": [b"en-a1-b2;q=1.000, *;q=0"],
    "proxy-authenticate": [b'Basic realm="W", Digest a=b'],
}


def skeleton(name):
    base = (seeds.REQUEST if name in REQ else seeds.RESPONSE).get(name, [])
    skip = SKIP.get(name, b"")
    return EXTRA.get(name, []) + [v for v in base if not (name in ("user-agent", "server", "via") and b"(" in v)]


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for name in ELEMENT:
        for n in (0, 1, 2, 3) if not deep else (0, 1, 2, 3, 4):
            out.append({"func": "whole", "params": {"name": name, "n": n}, "weight": 1 + n})
        for i in range(len(skeleton(name))):
            for delete, insert in ((1, 0), (0, 1), (1, 1)) if not deep else ((1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (0, 2), (2, 2)):
                out.append({"func": "edit", "params": {"name": name, "i": i, "delete": delete, "insert": insert}, "weight": 3})
        if skeleton(name):
            out.append({"func": "lines", "params": {"name": name, "n": 1}})
    return out


BUDGET = {"quick": 150, "thorough": 800}
BOUNDS = {
    "quick": "%d fields: every value of 0-3 bytes; 1-4 skeleton values each with any byte inserted, removed or replaced by any other, at any position; two lines with any bytes at the border" % len(ELEMENT),
    "thorough": "every value of 0-4 bytes; up to two bytes of the skeletons replaced by up to two",
}
OUTSIDE = "comments inside User-Agent, Server and Via (nesting isn't supported), quoted strings, groups and folding in From, letter case in dates and `clear`, control characters that some consider whitespace, whitespace around = in Content-Disposition; fields whose values are Structured Fields or JSON (F08, P08), and those with their own notes instead (Age, Content-Length, Range, Content-Range, Set-Cookie, dates: other properties)"
MUST_REACH = ["detailed", "plain", "valid"]
