"""P12: implementation, timing and hop fields are described by what they say."""
import re

from harness import fields, lib
from harness.lib import HttpRequestLinter
from harness.p06 import lines


def of(r, prefix):
    return [n for n in lib.all_notes(r) if type(n).__name__[:len(prefix)] == prefix]


def ask(headers, method=b"GET", version=b"HTTP/1.1"):
    q = HttpRequestLinter(start_time=1000000000)
    q.base_uri = "http://h.i/j"
    q.process_request_topline(method, b"http://example.com/", version)
    q.process_headers(headers)
    q.finish_content(True)
    return q


# --- Server


def server(inp, chk, n, before):
    text = before + inp.text("t", n, alphabet="aB/1.0,-")
    r = lib.response([(b"Server", text.encode())])
    inp.assume(lib.count(r, "BAD_SYNTAX") == 0)
    notes = of(r, "SERVER_TOO_LONG")
    chk.eq([n.vars["server_length"] for n in notes], [str(len(text)) + " bytes"] if len(text) > 64 else [], "long values, and no others, are reported")
    chk.eq(r.headers.parsed["server"], [text], "the value, whatever is in it, is kept")
    chk.reach("long" if len(text) > 64 else "short")


# --- Via

HOPS = ["1.1 a", "HTTP/2 b:80", "1.0 fred (a, b)", "1.1 c (\"x)\")", "foo/1 [::1]:8080", "2 d"]


def via(inp, chk, count, layout, kind):
    items = lib.pick(inp, "i", HOPS, count)
    headers = [(b"Via", v) for v in lines(items, layout)]
    r = lib.response(headers) if kind == "response" else lib.request(headers)
    chk.eq(r.headers.parsed["via"], items, "intermediaries are listed")
    notes = of(r, "VIA_PRESENT")
    chk.eq([re.findall("<code>(.*?)</code>", str(n.vars["via_list"])) for n in notes], [items] if items else [[]], "intermediaries are reported, in order")
    chk.reach("via")


# --- Expect


def expect(inp, chk, count, layout, version):
    items = lib.pick(inp, "i", ["100-continue", "100-Continue", "foo", "foo=bar", "101-continue", "100-continue=a", "100-continu"], count)
    q = ask([(b"Expect", v) for v in lines(items, layout)], b"POST", version.encode())
    other = [i for i in items if i.lower() != "100-continue"]
    chk.eq([n.vars["expectation"] for n in of(q, "EXPECT_UNKNOWN")], [", ".join(other)] if other else [], "expectations that aren't known are reported")
    chk.eq(len(of(q, "EXPECT_HTTP_1_0")), 1 if version == "HTTP/1.0" else 0, "expectations in HTTP/1.0 are reported")
    chk.reach("expect-other" if other else "expect")


def expect_cased(inp, chk):
    q = ask([(b"Expect", fields.anycase(inp, "100-continue", "c"))], b"POST")
    chk.eq(len(of(q, "EXPECT_")), 0, "expectations are recognised in any case")


# --- Max-Forwards


def forwards(inp, chk, n, before):
    method = before.encode() + inp.bytes("m", n, alphabet="TRACEOPINStrace")
    digits = inp.bytes("d", 2, alphabet="0123456789")
    q = ask([(b"Max-Forwards", digits)], method)
    known = method == b"TRACE" or method == b"OPTIONS"
    chk.eq(len(of(q, "MAX_FORWARDS_IGNORED")), 0 if known else 1, "Max-Forwards is used by TRACE and OPTIONS only")
    chk.reach("forwards" if known else "no-forwards")


# --- Pragma


def pragma(inp, chk, count, layout):
    items = lib.pick(inp, "i", ["no-cache", "No-Cache", "foo", "no-cach", "no-store", "foo=\"a, b\"", "nocache"], count)
    q = ask([(b"Pragma", v) for v in lines(items, layout)])
    low = [i.lower() for i in items]
    chk.eq(q.headers.parsed["pragma"], low, "directives")
    chk.eq(len(of(q, "PRAGMA_OTHER")), 1 if [i for i in low if i != "no-cache"] else 0, "other directives are reported, once")
    chk.reach("pragma")


def pragma_cased(inp, chk):
    q = ask([(b"Pragma", fields.anycase(inp, "no-cache", "c"))])
    chk.eq(len(of(q, "PRAGMA_")), 0, "no-cache is recognised in any case")


# --- Server-Timing

METRICS = ["a", "b;dur=1", "c;desc=x", "d;dur=1.5;desc=\"a, b; dur=x\"", "e;DESC=y;Dur=2", "f;desc=z;dur=x", "g;foo=1", "h ; dur = 3 ; desc = w"]
VALUES = {"a": [], "b": ["dur"], "c": ["desc"], "d": ["dur", "desc"], "e": ["dur", "desc"], "f": ["desc", "bad"], "g": [], "h": ["dur", "desc"]}


def timing(inp, chk, count, layout):
    items = lib.pick(inp, "i", METRICS[:-1], count)
    r = lib.response([(b"Server-Timing", v) for v in lines(items, layout)])
    want = []
    for i in items:
        name = i[0]
        has = VALUES[name]
        if "bad" in has:
            want.append(["SERVER_TIMING_BAD_PARAM", name, "dur"])
        elif "dur" not in has:
            want.append(["SERVER_TIMING_MISSING_DUR", name, None])
        if "desc" not in has:
            want.append(["SERVER_TIMING_MISSING_DESC", name, None])
    chk.eq([[type(n).__name__, n.vars["metric"], n.vars.get("param")] for n in of(r, "SERVER_TIMING_")], want, "metrics without a duration or description are reported, and named")
    chk.eq([m for m, p in r.headers.parsed["server-timing"]], [i[0] for i in items], "metrics")
    chk.reach("timing")


def duration(inp, chk, n, quoted):
    """Any duration."""
    text = inp.text("t", n, alphabet="0179.eE+-_naif")
    r = lib.response([(b"Server-Timing", b"a;desc=b;dur=" + (b"\"" if quoted else b"") + text.encode() + (b"\"" if quoted else b""))])
    number = re.fullmatch("[+-]?([0-9]+[.]?[0-9]*|[.][0-9]+)([eE][+-]?[0-9]+)?", text)
    chk.eq([n.vars["value"] for n in of(r, "SERVER_TIMING_BAD_PARAM")], [] if number else [text], "durations that aren't numbers are reported")
    chk.reach("number" if number else "not-number")


# --- Accept-Ranges


def ranges(inp, chk, sizes, layout):
    items = ["by" + inp.text("t" + str(i), n, alphabet="tesTESx") if n else inp.choice("t" + str(i), ["none", "None", "bytes", "Bytes", "items"]) for i, n in enumerate(sizes)]
    r = lib.response([(b"Accept-Ranges", v) for v in lines(items, layout)])
    low = [i.lower() for i in items]
    chk.eq(r.headers.parsed["accept-ranges"], low, "range units")
    chk.eq([n.vars["range"] for n in of(r, "UNKNOWN_RANGE")], [i for i in low if i != "bytes" and i != "none"], "units that aren't standard are reported, and named")
    chk.reach("ranges")


# --- Alt-Svc


def services(inp, chk, count, layout):
    items = lib.pick(inp, "i", ["clear", 'h3=":443"', 'h2="a,b:80"; ma=60', 'clear="x"', 'x=clear', 'w="clear, clear"'][:-2] + ['w="clear, clear"'], count)
    r = lib.response([(b"Alt-Svc", v) for v in lines(items, layout)])
    chk.eq(r.headers.parsed["alt-svc"], items, "alternatives")
    chk.eq(len(of(r, "ALTSVC_CLEAR_LIST")), 1 if "clear" in items and count > 1 else 0, "`clear` with alternatives is reported")
    chk.reach("services")


# --- Sunset


def sunset(inp, chk, day):
    """Any time of day, and clock."""
    h, m, s = [inp.bytes(k, 2, alphabet="0123456789") for k in "hms"]
    inp.assume(int(h) < 24)
    inp.assume(int(m) < 60)
    inp.assume(int(s) < 60)
    now = inp.int("now", 1, 1 << 33)
    text = ("%s, %02d Jan 1970 " % (("Fri", "Sat", "Sun")[day], day + 2)).encode()
    value = text + h + b":" + m + b":" + s + b" GMT"
    r = lib.response([(b"Sunset", value)], start_time=now)
    time = (day + 1) * 86400 + int(h) * 3600 + int(m) * 60 + int(s)
    chk.eq(len(of(r, "SUNSET_PAST")), 1 if time < now else 0, "resources whose sunset has passed are reported")
    chk.reach("past" if time < now else "future")


def noclock(inp, chk):
    """Without a clock."""
    r = lib.response([(b"Sunset", b"Fri, 02 Jan 1970 00:00:00 GMT")], start_time=None)
    chk.eq(len(of(r, "SUNSET_PAST")), 0, "without a time of receipt, nothing has passed")


# --- ETag, Keep-Alive


def etag(inp, chk, n, weak):
    text = inp.bytes("t", n, alphabet="aW/,\\ !\x7f'")
    inp.assume(b" " not in text and b"\x7f" not in text)
    r = lib.response([(b"ETag", (b"W/" if weak else b"") + b"\"" + text + b"\"")])
    chk.eq(list(r.headers.parsed["etag"]), [weak, text.decode("ascii")], "entity tags have the strength and text that was sent")
    chk.reach("etag")


def etag_text(inp, chk, n):
    """Any text: it's weak when it starts with W/, and only a quoted one is valid."""
    text = inp.text("t", n, alphabet="wW/\"a\\*")
    r = lib.response([(b"ETag", text.encode())])
    weak = text[:2] == "W/"
    rest = text[2:] if weak else text
    good = re.fullmatch('"[^"]*"', rest) is not None
    value = list(r.headers.parsed["etag"])
    chk.eq(value[0], weak, "entity tags are weak when they start with W/, and not otherwise")
    chk.eq(value[1], rest[1:-1] if len(rest) > 1 and rest[0] == '"' and rest[-1] == '"' else rest, "the tag is what's between the quotes")
    chk.eq(lib.count(r, "BAD_SYNTAX"), 0 if good else 1, "entity tags are quoted")
    chk.reach("tag" if good else "not-tag")


def alive(inp, chk, count, layout):
    items = lib.pick(inp, "i", ["timeout=5", "Max=\"100\"", "foo=\"a, b\\\"c\"", "TIMEOUT=1", "a=b"], count)
    r = lib.response([(b"Keep-Alive", v) for v in lines(items, layout)])
    known = {"timeout=5": ["timeout", "5"], "Max=\"100\"": ["max", "100"], "foo=\"a, b\\\"c\"": ["foo", "a, b\"c"], "TIMEOUT=1": ["timeout", "1"], "a=b": ["a", "b"]}
    chk.eq([[k, v] for k, v in r.headers.parsed["keep-alive"]], [known[i] for i in items], "parameters")
    chk.reach("alive")


def tasks(tier):
    deep = tier == "thorough"
    out = [dict(func="expect_cased", params={}), dict(func="pragma_cased", params={}), dict(func="noclock", params={})]
    for n in (1, 2, 3, 4):
        for before in ("", "a" * 59, "a" * 61, "a" * 62):
            out.append(dict(func="server", params=dict(n=n, before=before)))
    for layout in (0, 1, 2, 3):
        for count in ((1, 2, 3) if deep or not layout else (1, 2)) + ((11, 40) if layout in (0, 3) else ()):
            for kind in ("response", "request"):
                out.append(dict(func="via", params=dict(count=count, layout=layout, kind=kind), weight=6 ** min(count, 3)))
            for version in ("HTTP/1.0", "HTTP/1.1", "HTTP/2"):
                out.append(dict(func="expect", params=dict(count=count, layout=layout, version=version), weight=7 ** min(count, 3)))
            for func in ("pragma", "timing", "services", "alive"):
                out.append(dict(func=func, params=dict(count=count, layout=layout), weight=7 ** min(count, 3)))
        for sizes in ([1], [3], [4], [0, 3], [3, 0], [0, 0], [0, 0, 0]):
            out.append(dict(func="ranges", params=dict(sizes=sizes, layout=layout)))
    for n in range(0, 4):
        for before in ("TR", "OPTI", "OPTION", "TRACE", "OPTIONS"):
            if n or len(before) > 4:
                out.append(dict(func="forwards", params=dict(n=n, before=before)))
    for n in (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 4, 5):
        for quoted in (False, True):
            out.append(dict(func="duration", params=dict(n=n, quoted=quoted), weight=10))
    for day in (0, 1, 2):
        out.append(dict(func="sunset", params=dict(day=day)))
    for n in (0, 1, 2, 3, 4):
        for weak in (False, True):
            out.append(dict(func="etag", params=dict(n=n, weak=weak)))
    for n in (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 4, 5):
        out.append(dict(func="etag_text", params=dict(n=n), weight=5))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["long", "short", "via", "expect", "expect-other", "forwards", "no-forwards", "pragma", "timing", "number", "not-number", "ranges", "services", "past", "future", "etag", "tag", "not-tag", "alive"]
BOUNDS = {
    "quick": "Server values of up to 4 and of 60 to 66 characters; any three of 6 hops, 7 expectations (in three versions), 7 pragmas, 7 metrics, 5 alternative services and 5 Keep-Alive parameters, and two in three more layouts; 11 and 40 of them; methods with up to 3 arbitrary letters; durations of up to 5 arbitrary characters (of 14); range units of up to 6; every second of three days, and any clock; entity tags of up to 4 characters, and any 5 characters (of 7) as an entity tag",
    "thorough": "three members in every layout; durations and entity tags of up to 6 characters",
}
OUTSIDE = "white space around `=` in Server-Timing's parameters; Alt-Svc's parameters and protocol names (F04 judges their syntax); longer values"
ASSUMPTIONS = []
