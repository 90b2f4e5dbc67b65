"""M04: request targets that aren't URIs (or are too long) are reported, and no others; they're kept without their fragment."""
import re

from harness import lib

PRINT = [c for c in range(33, 127)]
SCHEME = re.compile("[A-Za-z][A-Za-z0-9+.-]*")
UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"
SUB = "!$&'()*+,;="
HEX = "0123456789ABCDEFabcdef"


def only(s, chars):
    """Whether s is made of the characters, and percent-encoded octets."""
    i = 0
    while i < len(s):
        if s[i] == "%":
            if i + 2 >= len(s) or not (s[i + 1] in HEX and s[i + 2] in HEX):
                return False
            i += 3
        elif s[i] in chars:
            i += 1
        else:
            return False
    return True


def triplets(s):
    """Whether each percent sign starts a percent-encoded octet."""
    i = 0
    while i < len(s):
        if s[i] == "%":
            if i + 2 >= len(s) or not (s[i + 1] in HEX and s[i + 2] in HEX):
                return False
            i += 3
        else:
            i += 1
    return True


def authority_valid(a):
    host = a
    i = a.rfind("@")
    if i >= 0:
        if not only(a[:i], UNRESERVED + SUB + ":"):
            return False
        host = a[i + 1:]
    if host[:5] == "[::1]":
        tail = host[5:]
        if tail == "":
            return True
        if tail[0] != ":":
            return False
        port = tail[1:]
    else:
        i = host.rfind(":")
        port = ""
        if i >= 0:
            port = host[i + 1:]
            host = host[:i]
        if not only(host, UNRESERVED + SUB):
            return False
    for c in port:
        if c not in "0123456789":
            return False
    return True


ENCODED = {c: "%%%02X" % ord(c) for c in "\"<>\\^`{|}[]"}


def judge(inp, chk, v):
    t = v.decode("ascii")
    # Split as RFC 3986, Appendix B does
    i = t.find(":")
    has_scheme = i > 0 and SCHEME.fullmatch(t[:i]) is not None
    scheme = t[:i] if has_scheme else ""
    rest = t[i + 1:] if has_scheme else t
    f = rest.find("#")
    frag = ""
    if f >= 0:
        frag = rest[f + 1:]
        rest = rest[:f]
    q = rest.find("?")
    query = None
    if q >= 0:
        query = rest[q + 1:]
        rest = rest[:q]
    authority = None
    path = rest
    if rest[:2] == "//":
        s = rest.find("/", 2)
        if s < 0:
            s = len(rest)
        authority = rest[2:s]
        path = rest[s:]
    if authority is None or authority == "":
        # the parts of other targets aren't followed
        inp.assume(not has_scheme)
        valid = False
    else:
        for label in authority[authority.rfind("@") + 1:].split(":")[0].split(".")[:-1]:
            inp.assume(label != "")  # not a domain name, which is reported too
        if ":" in authority:
            for label in authority.split(":")[0].split(".")[:-1]:
                inp.assume(label != "")
        else:
            for label in authority.split(".")[:-1]:
                inp.assume(label != "")
        valid = has_scheme and authority_valid(authority) and triplets(path) and triplets(frag) and (query is None or triplets(query))
    r = lib.HttpRequestLinter(start_time=1000000000)
    r.process_request_topline(b"GET", v, b"HTTP/1.1")
    chk.eq(lib.count(r, "URI_BAD_SYNTAX"), 0 if valid else 1, "targets that aren't URIs are reported, and no others")
    chk.eq(r.iri, t, "the target is kept as it is")
    if valid:
        want = scheme.lower() + "://" + authority + escape(path)
        if query:
            want = want + "?" + escape(query)
        got = r.uri
        if query == "" and got[-1:] == "?":
            got = got[:-1]
        chk.eq(got, want, "the URI is the target without its fragment")
        chk.reach("valid")
        if f >= 0:
            chk.reach("fragment")
    else:
        chk.reach("invalid")
    chk.eq(lib.count(r, "URI_TOO_LONG"), 0, "a short URI isn't too long")


def escape(s):
    for c in "\"<>\\^`{|}[]":
        s = s.replace(c, ENCODED[c])
    return s


def edit(inp, chk, base, i, delete, insert):
    b = base.encode()
    judge(inp, chk, b[:i] + inp.bytes("w", insert, alphabet=PRINT) + b[i + delete:])


def iri(inp, chk, base, i, lead, n):
    """Characters outside ASCII in the path, query or fragment: percent-encoded as UTF-8."""
    b = base.encode()
    # the other octets are the solver's choice, one value at a time (UTF-8's decoder isn't encoded)
    last = inp.choice("t", range(0x80, 0xC0))
    tail = bytes([inp.choice("s", [0x80, 0x9F, 0xA0, 0xBF]), last] if n == 2 else [last])
    v = b[:i] + bytes(lead) + tail + b[i:]
    r = lib.HttpRequestLinter(start_time=1000000000)
    r.process_request_topline(b"GET", v, b"HTTP/1.1")
    ok = True
    if lead[0] == 0xE0:
        inp.assume(tail[0] >= 0xA0)  # overlong
    if lead[0] == 0xED:
        inp.assume(tail[0] < 0xA0)  # surrogates
    chk.eq(lib.count(r, "URI_BAD_SYNTAX"), 0, "an IRI that corresponds to a URI isn't reported")
    want = base[:i] + "".join([pct(x) for x in v[i:i + len(lead) + n]]) + base[i:]
    if "#" in base[:i]:
        want = base
    if "#" in want:
        want = want[:want.index("#")]
    chk.eq(r.uri, want, "the IRI's characters are percent-encoded as UTF-8")
    chk.reach("iri")


def pct(x):
    return "%" + "0123456789ABCDEF"[x // 16] + "0123456789ABCDEF"[x % 16]


def length(inp, chk, extra):
    """URIs of around 8000 characters."""
    n = inp.choice("n", [7998, 7999, 8000, 8001, 8002, 8192, 9000, 23994])
    special = inp.choice("special", ["", "\u00e9", " <", "%41"])
    frag = inp.choice("frag", ["", "#f", "#" + "f" * 50])
    grown = {"": 0, "\u00e9": 6, " <": 6, "%41": 3}[special]
    head = inp.choice("head", ["http://a/", "HTTPS://example.com:80/x?y=", "http://a/b?c=d&"])
    body = special + "a" * (n - len(head) - grown)
    r = lib.HttpRequestLinter(start_time=1000000000)
    r.process_request_topline(b"GET", (head + body + frag).encode("utf-8"), b"HTTP/1.1")
    chk.eq(len(r.uri), n, "length of the URI")
    chk.eq(lib.count(r, "URI_TOO_LONG"), 1 if n > 8000 else 0, "URIs with more than 8000 characters are reported, and no others")
    if n > 8000:
        chk.eq(lib.find(r, "URI_TOO_LONG").vars["uri_len"].replace(",", ""), str(n), "the URI's length is shown")
        chk.reach("long")


BASES = ["http://ex.co/a%20b?c=d#e", "HTTPS://u:p@a:80/?#", "a+b-.://h", "http://[::1]:8/x"]


def tasks(tier):
    deep = tier == "thorough"
    out = []
    k = 2
    for base in BASES:
        for i in range(len(base) + 1):
            for d in range(0, 3 if deep else 2):
                for ins in range(0, k + 1 + (1 if deep else 0)):
                    if i + d > len(base) or not (d or ins):
                        continue
                    if "[" in base and i <= base.find("]") and i + d > base.find("[") - 1:
                        continue
                    out.append(dict(func="edit", params=dict(base=base, i=i, delete=d, insert=ins), weight=1 + ins * ins))
    base = "http://a/bc?d#e"
    for i in (9, 10, 11, 12, 13, 14, 15):
        for lead, n in [([0xC2], 1), ([0xC3], 1), ([0xDF], 1), ([0xE0], 2), ([0xE2], 2), ([0xED], 2), ([0xF0, 0x9F], 2)]:
            if i in (9, 12, 15) or deep:
                out.append(dict(func="iri", params=dict(base=base, i=i, lead=lead, n=n)))
    out.append(dict(func="length", params=dict(extra=0)))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["valid", "fragment", "invalid", "iri", "long"]
BOUNDS = {
    "quick": "four targets (with user information, ports, IP literals, percent-encoding, queries and fragments) with one character deleted and up to 2 arbitrary printable characters inserted at any position; characters outside ASCII at 3 positions; URIs of 7998 to 23994 characters",
    "thorough": "the same with up to 2 characters deleted and 3 inserted; characters outside ASCII at 7 positions",
}
OUTSIDE = "whitespace and control characters; targets with a scheme and no authority (urlunsplit's quirks); IP literals other than [::1]; hosts that are no domain names (empty or too long labels, internationalised ones); whether an empty query is kept"
ASSUMPTIONS = ["a request's target is given as an absolute URI (or IRI), as process_request_topline's documentation says"]
