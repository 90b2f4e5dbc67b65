"""M01: content accounting and the Content-Length verdict."""
from hashlib import md5

from harness import lib
from harness.lib import HttpRequestLinter, HttpResponseLinter

DIGITS = "0123456789"


def feed(r, total, sizes, inp):
    """Feed `total` bytes in chunks of symbolically chosen sizes."""
    left = total
    i = 0
    while left > 0:
        n = inp.choice(f"chunk{i}", [s for s in sizes if s <= left])
        r.feed_content(b"a" * n)
        left = left - n
        i = i + 1
    if inp.bool("empty"):
        r.feed_content(b"")


def verdict(chk, r, cl, total, allowed, no_content):
    """cl: None if there's no valid Content-Length, otherwise the declared length."""
    chk.eq(r.content_length, total, "content length is the number of bytes fed")
    right, wrong = lib.count(r, "CL_CORRECT"), lib.count(r, "CL_INCORRECT")
    if cl is None or not allowed or no_content:
        if cl is None and not allowed:
            chk(right == 0 and wrong == 0, "Content-Length judged without a comparison")
        if no_content or not allowed:
            chk(right == 0 and wrong == 0, "Content-Length judged without content")
    elif cl == total:
        chk(right == 1 and wrong == 0, "a correct Content-Length is reported as correct", cl=cl, total=total)
        chk.reach("right")
    else:
        chk(right == 0 and wrong == 1, "an incorrect Content-Length is reported as incorrect", cl=cl, total=total)
        n = lib.find(r, "CL_INCORRECT")
        chk.eq(n.vars["content_length"], lib_num(total), "reported actual size")
        chk.reach("wrong")
    bad = lib.count(r, "CONTENT_NOT_ALLOWED")
    chk.eq(bad, 1 if (not allowed and total > 0 and not no_content) else 0, "content in a message that can't have it")


def lib_num(n):
    return str(n)


def response(inp, chk, nd, maxtotal, anystatus):
    """Any three-digit status, HEAD or not, any Content-Length of nd digits, any split into chunks."""
    total = inp.choice("total", range(maxtotal + 1))
    no_content = inp.choice("no_content", [False, True])
    head = inp.choice("head", [False, True])
    r = HttpResponseLinter(start_time=1000000000, no_content=no_content)
    r.is_head_response = head
    status = inp.bytes("status", 3, alphabet=DIGITS) if anystatus else inp.choice("sc", [b"200", b"204", b"404"])
    r.process_response_topline(b"HTTP/1.1", status, b"OK")
    cl = None
    hdrs = [(b"X", b"y")]
    if nd:
        d = inp.bytes("cl", nd, alphabet=DIGITS)
        hdrs = hdrs + [(inp.choice("name", [b"Content-Length", b"content-length"]), d)]
        cl = int(d)
    r.process_headers(hdrs)
    feed(r, total, [total] if anystatus else [1, 2, 3], inp)
    r.finish_content(inp.choice("complete", [True, False]) if not anystatus else True)
    code = int(status)
    allowed = not (head or (code >= 100 and code <= 199) or code == 204 or code == 304)
    verdict(chk, r, cl, total, allowed, no_content)


def request(inp, chk, nd, maxtotal, nm):
    total = inp.choice("total", range(maxtotal + 1))
    no_content = inp.choice("no_content", [False, True])
    r = HttpRequestLinter(start_time=1000000000, no_content=no_content)
    if nm:
        method = inp.bytes("method", nm, alphabet="ABCDEGHKLNOPRSTUdegt")
    else:
        method = inp.choice("m", [b"GET", b"HEAD", b"DELETE", b"CONNECT", b"TRACE", b"POST", b"PUT", b"OPTIONS", b"PATCH", b"get"])
    r.process_request_topline(method, b"/a", b"HTTP/1.1")
    cl = None
    hdrs = [(b"X", b"y")]
    if nd:
        d = inp.bytes("cl", nd, alphabet=DIGITS)
        hdrs = [(b"CONTENT-LENGTH", d)] + hdrs
        cl = int(d)
    r.process_headers(hdrs)
    feed(r, total, [1, 2, 3], inp)
    r.finish_content(True)
    verdict(chk, r, cl, total, True, no_content)
    undefined = method == b"GET" or method == b"HEAD" or method == b"DELETE" or method == b"CONNECT" or method == b"TRACE"
    chk.eq(lib.count(r, "REQUEST_CONTENT_NOT_DEFINED"), 1 if undefined and total > 0 and not no_content else 0,
           "content in a request whose method doesn't define it")


def value(inp, chk, n):
    """Which values are numbers at all."""
    r = HttpResponseLinter(start_time=None)
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    v = inp.bytes("v", n)
    r.process_headers([(b"Content-Length", v)])
    r.feed_content(b"ab")
    r.finish_content(True)
    # field values are delivered without surrounding whitespace, but tolerate it
    s = 0
    e = n
    while s < e and (v[s] == 32 or v[s] == 9):
        s = s + 1
    while e > s and (v[e - 1] == 32 or v[e - 1] == 9):
        e = e - 1
    core = v[s:e]
    ok = len(core) > 0
    total = 0
    for b in core:
        if b >= 48 and b <= 57:
            total = total * 10 + (b - 48)
        else:
            ok = False
    for b in core:
        # other whitespace and control characters are the framing layer's concern
        inp.assume(b >= 32 and b < 128 and b != 127)
    chk.eq(lib.count(r, "CL_BAD_SYNTAX"), 0 if ok else 1, "only digits are a Content-Length")
    if ok:
        chk.eq(r.headers.parsed["content-length"], total, "the declared length is the decimal value")
        chk.eq(lib.has(r, "CL_CORRECT"), total == 2, "verdict")
        chk.reach("number")
    else:
        chk.eq(r.headers.parsed["content-length"], None, "no length is taken from an invalid value")
        chk(not lib.has(r, "CL_CORRECT"), "an invalid Content-Length is never correct")


LIMIT = 9223372036854775807


def large(inp, chk):
    """Around 2^63-1: the last digits are symbolic."""
    r = HttpResponseLinter(start_time=None)
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    d = inp.bytes("d", 4, alphabet=DIGITS)
    v = b"922337203685477" + d
    if inp.bool("lead"):
        v = b"00" + v
    r.process_headers([(b"Content-Length", v)])
    r.finish_content(True)
    n = int(v)
    chk.eq(r.headers.parsed["content-length"], n, "value")
    chk.eq(lib.count(r, "CL_TOO_LARGE"), 1 if n > LIMIT else 0, "a warning exactly for lengths above 2^63-1")
    chk(lib.has(r, "CL_INCORRECT"), "never the actual length")
    chk.reach("large")


def many(inp, chk):
    """More than one Content-Length: the first one counts, and the repetition is reported."""
    r = HttpResponseLinter(start_time=None)
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    a = inp.bytes("a", 1, alphabet=DIGITS)
    b = inp.bytes("b", 1, alphabet=DIGITS)
    k = inp.choice("k", range(3))
    hdrs = [(b"Content-Length", a), (b"content-length", b)]
    hdrs = hdrs[:k] + [(b"X", b"1")] + hdrs[k:]
    te = inp.choice("te", [None, 0, 3])
    if te is not None:
        hdrs = hdrs[:te] + [(b"Transfer-Encoding", b"chunked")] + hdrs[te:]
    r.process_headers(hdrs)
    r.feed_content(b"aaa")
    r.finish_content(True)
    chk.eq(r.headers.parsed["content-length"], int(a), "the first value is used")
    chk.eq(lib.count(r, "SINGLE_HEADER_REPEAT"), 1, "the repetition is reported once")
    chk.eq(lib.count(r, "CL_AND_TE_PRESENT"), 0 if te is None else 1, "Content-Length with Transfer-Encoding")
    chk.eq(lib.has(r, "CL_CORRECT"), int(a) == 3, "verdict of the first value")


def digest(inp, chk, sizes):
    """Hashes, lengths and the sample don't depend on how the content was divided."""
    data = b""
    n = 0
    for s in sizes:
        data = data + bytes([97 + n]) * s
        n = n + 1
    r = HttpResponseLinter(start_time=None)
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    r.process_headers([])
    cuts = sorted([inp.choice("c1", CUTS), inp.choice("c2", CUTS)])
    a, b = cuts[0], cuts[1]
    r.feed_content(data[:a])
    r.feed_content(data[a:b])
    r.feed_content(data[b:])
    r.finish_content(True)
    chk.eq(r.content_length, len(data), "content length")
    chk.eq(r.content_hash, md5(data).digest(), "hash of the content")
    chk.eq(r.decoded.length, len(data), "decoded length")
    chk.eq(r.decoded.hash, md5(data).digest(), "hash of the decoded content")
    chk.eq(r.content_sample, data[:8192], "the sample is the first 8192 bytes")


def chunked(inp, chk, count, size):
    """Any number of chunks."""
    data = b""
    for i in range(count):
        data = data + bytes([97 + i % 26]) * size
    cl = inp.bytes("cl", 2, alphabet=DIGITS)
    base = len(data) // 100
    r = HttpResponseLinter(start_time=None)
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    r.process_headers([(b"Content-Length", str(base).encode() + cl if base else cl)])
    for i in range(count):
        r.feed_content(data[i * size:(i + 1) * size])
    r.finish_content(True)
    chk.eq(r.content_length, len(data), "content length")
    chk.eq([r.content_hash, r.decoded.hash], [md5(data).digest()] * 2, "hash of the content")
    chk.eq(r.decoded.length, len(data), "decoded length")
    chk.eq(r.content_sample, data[:8192], "the sample is the first 8192 bytes")
    right = int(cl) == len(data) % 100
    chk.eq([lib.count(r, "CL_CORRECT"), lib.count(r, "CL_INCORRECT")], [1, 0] if right else [0, 1], "verdict")
    chk.reach("chunked")


CUTS = [0, 1, 5, 4096, 8191, 8192, 8193, 9000, 16384, 20000]


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for nd in (0, 1, 2) if not deep else (0, 1, 2, 3):
        out.append({"func": "response", "params": {"nd": nd, "maxtotal": 3 if not deep else 6, "anystatus": False}})
        if nd < 2:
            out.append({"func": "response", "params": {"nd": nd, "maxtotal": 1, "anystatus": True}, "weight": 3})
        out.append({"func": "request", "params": {"nd": nd, "maxtotal": 3 if not deep else 6, "nm": 0}})
    for nm in (3, 4) if not deep else (1, 2, 3, 4, 5, 6, 7):
        out.append({"func": "request", "params": {"nd": 0, "maxtotal": 1, "nm": nm}})
    for n in range(1, 4 if not deep else 6):
        out.append({"func": "value", "params": {"n": n}})
    out.append({"func": "large"})
    out.append({"func": "many"})
    out.append({"func": "digest", "params": {"sizes": [5000, 3192, 1, 2000]}})
    out.append({"func": "digest", "params": {"sizes": [8192]}})
    for count, size in ([(0, 1), (20, 1), (120, 1), (300, 30), (30, 1000)] if not deep else [(0, 1), (20, 1), (120, 1), (300, 30), (30, 1000), (1100, 1), (1100, 8), (5, 8192), (4, 70000), (70, 1024)]):
        out.append({"func": "chunked", "params": {"count": count, "size": size}})
    out.append({"func": "digest", "params": {"sizes": [10, 20000]}})
    return out


BUDGET = {"quick": 60, "thorough": 400}
BOUNDS = {
    "quick": "every 3-digit status with content of 0-1 bytes; Content-Length: 0-2 digits, every 1-3 byte printable value, every value 922337203685477xxxx; content of 0-3 bytes in every division into chunks of 1-3 bytes; hash/sample: contents of up to 20010 bytes cut at any two of 10 places, or in 0, 20, 30, 120 or 300 equal chunks, with any last two digits of Content-Length",
    "thorough": "as quick, Content-Length of up to 3 digits and values of up to 5 bytes, content of up to 6 bytes, up to 1100 chunks, and chunks of up to 70000 bytes",
}
OUTSIDE = "contents larger than 30 kB (280 kB in the thorough check); more than two cuts at other places; the content bytes themselves are constant (they don't influence the verdict); the hash function (hashlib) is trusted"
MUST_REACH = ["right", "wrong", "number", "large", "chunked"]
