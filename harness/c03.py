"""C03: Age, Date and Last-Modified, and the age of a response."""
from harness import lib
from harness.dates import D, minute_date, second_date
from harness.lib import HttpRequestLinter, HttpResponseLinter

AGE_NOTES = ["AGE_NOT_INT", "AGE_NEGATIVE", "AGE_LARGE"]


def age_value(inp, chk, n, alphabet):
    """Which Age values are numbers, and what they mean."""
    v = inp.bytes("v", n, alphabet=alphabet)
    inp.assume(n == 0 or (v[0] != 32 and v[0] != 9 and v[n - 1] != 32 and v[n - 1] != 9))
    r = lib.response([(b"Age", v)], start_time=None)
    neg = n > 0 and v[0] == 45
    core = v[1:] if neg else v
    ok = len(core) > 0
    total = 0
    for b in core:
        if b >= 48 and b <= 57:
            total = total * 10 + (b - 48)
        else:
            ok = False
    if not ok:
        want = ["AGE_NOT_INT"]
    elif neg and total > 0:
        want = ["AGE_NEGATIVE"]
        ok = False
    else:
        want = []
    if neg and ok:
        return  # "-0" has no defined meaning
    chk.eq([x for x in AGE_NOTES if lib.has(r, x)], want, "Age notes")
    if ok:
        chk.eq(r.headers.parsed["age"], total, "value of Age")
        chk.eq(r.caching.age, total, "age of the response")
        chk.eq(lib.count(r, "CURRENT_AGE"), 1 if total >= 1 else 0, "the age is reported when there is one")
        chk.reach("age")
    else:
        chk.eq(r.headers.parsed["age"], None, "no value is taken from an invalid Age")
        chk.eq(r.caching.age, 0, "an invalid Age doesn't contribute to the age")


def age_large(inp, chk):
    d = inp.bytes("d", 4, alphabet=D)
    v = b"214748" + d
    r = lib.response([(b"Age", v)], start_time=None)
    chk.eq(r.headers.parsed["age"], int(v), "value of Age")
    chk.eq(lib.has(r, "AGE_LARGE"), int(v) > 2147483648, "ages above 2^31 are reported as large")
    chk.eq(r.caching.age, int(v), "age of the response")


def current(inp, chk, na, repeat):
    """The age calculation of RFC 9111, Section 4.2.3."""
    start = inp.choice("start", [None, "t"])
    if start is not None:
        start = inp.int("now", 1309769900, 1309773700)
    rs = inp.choice("req", ["none", "unknown", "t"])
    delay = 0
    req = None
    if rs != "none":
        if rs == "t":
            delay = inp.int("delay", 0, 100)
        if rs == "t" and start is not None:
            req = HttpRequestLinter(start_time=start - delay)
        else:
            req = HttpRequestLinter(start_time=None)
            delay = 0
    r = HttpResponseLinter(start_time=start)
    r.request = req
    hdrs = []
    date = None
    if inp.choice("date", [False, True]):
        dv, date = second_date(inp, "d")
        hdrs = hdrs + [(b"Date", dv)]
    age = 0
    if na:
        a = inp.bytes("age", na, alphabet=D)
        hdrs = hdrs + [(b"Age", a)]
        age = int(a)
        if repeat:
            hdrs = hdrs + [(b"Age", b"99")]
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    r.process_headers(hdrs)
    r.finish_content(True)
    apparent = 0
    if date is not None and start is not None and start > date:
        apparent = start - date
    corrected = age + delay
    want = apparent if apparent > corrected else corrected
    chk.eq(r.caching.age, want, "current age")
    chk.eq(lib.count(r, "CURRENT_AGE"), 1 if want >= 1 else 0, "the age is reported when there is one")
    chk.eq(lib.count(r, "SINGLE_HEADER_REPEAT"), 1 if na and repeat else 0, "a repeated Age is reported")
    chk.reach("apparent" if apparent > corrected else "corrected")


def clock(inp, chk, na):
    """The verdict on the server's clock."""
    start = inp.choice("start", [None, "t"])
    if start is not None:
        start = inp.int("now", 1309769900, 1309773700)
    dv, date = second_date(inp, "d")
    hdrs = [(b"Date", dv)]
    age = 0
    if na:
        a = inp.bytes("age", na, alphabet=D)
        hdrs = [(b"Age", a)] + hdrs
        age = int(a)
    r = lib.response(hdrs, start_time=start)
    notes = [n for n in ["DATE_CORRECT", "DATE_INCORRECT", "AGE_PENALTY"] if lib.has(r, n)]
    if start is None:
        chk.eq(notes, [], "no verdict on the clock without a local clock")
        return
    skew = date - start + age  # how far the server's clock is ahead, once Age is accounted for
    if age > 5 and start - date < 5:
        want = ["AGE_PENALTY"]
        chk.reach("penalty")
    elif skew > 5 or skew < -5:
        want = ["DATE_INCORRECT"]
        chk.reach("incorrect")
    else:
        want = ["DATE_CORRECT"]
        chk.reach("correct")
    chk.eq(notes, want, "verdict on the server's clock", skew=skew)


def clock_request(inp, chk):
    """Requests get no verdict on their clock."""
    dv, date = second_date(inp, "d")
    r = lib.request([(b"Date", dv)])
    for n in ["DATE_CORRECT", "DATE_INCORRECT", "AGE_PENALTY"]:
        chk(not lib.has(r, n), "no verdict on a client's clock")
    chk.eq(r.headers.parsed["date"], date, "value of Date")


def modified(inp, chk):
    """Last-Modified compared with Date, or with the local clock without one."""
    lv, lm = minute_date(inp, "l")
    hdrs = [(b"Last-Modified", lv)]
    start = inp.choice("start", [None, "t"])
    if start is not None:
        start = inp.int("now", 1309769900, 1309773700)
    base = start
    if inp.choice("date", [False, True]):
        dv, base = minute_date(inp, "d")
        hdrs = [(b"Date", dv)] + hdrs if inp.choice("first", [False, True]) else hdrs + [(b"Date", dv)]
    r = lib.response(hdrs, start_time=start)
    notes = [n for n in ["LM_FUTURE", "LM_PRESENT"] if lib.has(r, n)]
    if base is None:
        chk.eq(notes, [], "no verdict without a reference time")
    else:
        chk.eq(notes, ["LM_FUTURE"] if lm > base else ["LM_PRESENT"], "Last-Modified in the future", lm=lm, base=base)
        chk.reach("modified")


def clockless(inp, chk):
    """Missing Date."""
    kinds = [None, b"Mon, 04 Jul 2011 09:08:06 GMT", b"x"]
    d, e, l = inp.choice("d", kinds), inp.choice("e", kinds), inp.choice("l", kinds)
    hdrs = []
    if e is not None:
        hdrs = hdrs + [(inp.choice("en", [b"Expires", b"expires"]), e)]
    if d is not None:
        hdrs = hdrs + [(inp.choice("dn", [b"Date", b"DATE"]), d)]
    if l is not None:
        hdrs = hdrs + [(b"Last-Modified", l)]
    star = inp.choice("star", [False, True])
    if star:
        hdrs = hdrs + [(b"Vary", b"*")]
    r = lib.response(hdrs, start_time=inp.choice("st", [None, 1309770000]), status=inp.choice("status", [b"200", b"302", b"404"]))
    missing = d is None and not star
    chk.eq(lib.count(r, "DATE_CLOCKLESS"), 1 if missing else 0, "a missing Date is reported")
    chk.eq(lib.count(r, "DATE_CLOCKLESS_BAD_HDR"), 1 if missing and (e is not None or l is not None) else 0,
           "date-based fields without Date are reported")
    chk.reach("clockless")


def tasks(tier):
    deep = tier == "thorough"
    out = [{"func": "age_value", "params": {"n": n, "alphabet": None if n < 3 else "0123456789-+_. \t,"}} for n in range(0, 4 if not deep else 6)]
    for t in out:
        if t["params"]["alphabet"] is None:
            t["params"]["alphabet"] = "".join(map(chr, range(33, 127)))
    out += [{"func": "age_large"}, {"func": "modified", "weight": 2}, {"func": "clockless"}, {"func": "clock_request"}]
    for na in (0, 1, 2) if not deep else (0, 1, 2, 3, 4, 5):
        out.append({"func": "current", "params": {"na": na, "repeat": False}})
        out.append({"func": "clock", "params": {"na": na}})
    out.append({"func": "current", "params": {"na": 2, "repeat": True}})
    return out


BUDGET = {"quick": 50, "thorough": 400}
BOUNDS = {
    "quick": "Age: every value of 0-2 printable bytes, 3 bytes of digits, signs and spaces, every value 214748xxxx; ages of up to 2 digits with Date at any second of a minute (hour for Last-Modified), any local time in a 3800-second window, request sent 0-100 s earlier",
    "thorough": "as quick with Age values of up to 5 bytes and digits",
}
OUTSIDE = "\"-0\";  Date at the epoch; fractional clocks; the wording of relative times"
MUST_REACH = ["age", "apparent", "corrected", "penalty", "incorrect", "correct", "modified", "clockless"]
