"""C02: freshness lifetimes and the freshness and staleness verdicts."""
from harness import lib
from harness.dates import D, minute_date, second_date
from harness.lib import HttpRequestLinter, HttpResponseLinter

HEURISTIC = [200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501]
FRESH_NOTES = ["FRESHNESS_FRESH", "FRESHNESS_SHARED_PRIVATE", "FRESHNESS_STALE_ALREADY", "FRESHNESS_HEURISTIC", "FRESHNESS_NONE",
               "FRESHNESS_NO_CACHE", "FRESHNESS_NO_CACHE_NO_VALIDATOR", "CC_AND_EXPIRES", "STORE_PUBLIC_UNNECESSARY"]
STALE_NOTES = ["STALE_SERVABLE", "STALE_IF_ERROR", "STALE_WHILE_REVALIDATE", "FRESH_MUST_REVALIDATE", "STALE_MUST_REVALIDATE",
               "FRESH_PROXY_REVALIDATE", "STALE_PROXY_REVALIDATE"]


def heuristic(code):
    for c in HEURISTIC:
        if code == c:
            return True
    return False


def model(chk, r, status, age, expires_life, max_age, s_maxage, flags, validator):
    """expires_life: None if there's no Expires; otherwise its lifetime in seconds."""
    private = shared = 0
    explicit = False
    if expires_life is not None:
        explicit, private, shared = True, expires_life, expires_life
    if max_age is not None:
        explicit, private, shared = True, max_age, max_age
    if s_maxage is not None:
        explicit, shared = True, s_maxage
    c = r.caching
    chk.eq(c.age, age, "current age")
    chk.eq(c.freshness_lifetime_private, private, "freshness lifetime")
    chk.eq(c.freshness_lifetime_shared, shared, "freshness lifetime in shared caches")
    fresh, sfresh = private > age, shared > age
    got = [n for n in FRESH_NOTES if lib.has(r, n)]
    want = []
    if "no-cache" in flags:
        want = ["FRESHNESS_NO_CACHE" if validator else "FRESHNESS_NO_CACHE_NO_VALIDATOR"]
    else:
        if explicit:
            if shared != private:
                want.append("FRESHNESS_SHARED_PRIVATE")
                n = lib.find(r, "FRESHNESS_SHARED_PRIVATE")
                if n is not None:
                    chk.eq(n.vars["private_status"], "fresh" if fresh else "stale", "private status")
                    chk.eq(n.vars["shared_status"], "fresh" if sfresh else "stale", "shared status")
                chk.reach("both")
            elif fresh:
                want.append("FRESHNESS_FRESH")
                chk.reach("fresh")
            else:
                want.append("FRESHNESS_STALE_ALREADY")
                chk.reach("stale")
        elif heuristic(status):
            want.append("FRESHNESS_HEURISTIC")
        else:
            want.append("FRESHNESS_NONE")
        if max_age is not None and expires_life is not None:
            want.append("CC_AND_EXPIRES")
        if "public" in flags and (explicit or heuristic(status)):
            want.append("STORE_PUBLIC_UNNECESSARY")
    chk.eq(got, [n for n in FRESH_NOTES if n in want], "freshness notes")
    got = [n for n in STALE_NOTES if lib.has(r, n)]
    want = []
    if "no-cache" not in flags:
        if "stale-while-revalidate" in flags:
            want.append("STALE_WHILE_REVALIDATE")
        if "stale-if-error" in flags:
            want.append("STALE_IF_ERROR")
        elif "must-revalidate" in flags:
            if fresh:
                want.append("FRESH_MUST_REVALIDATE")
            elif explicit:
                want.append("STALE_MUST_REVALIDATE")
        elif "proxy-revalidate" in flags or s_maxage is not None:
            if sfresh:
                want.append("FRESH_PROXY_REVALIDATE")
            elif explicit:
                want.append("STALE_PROXY_REVALIDATE")
        else:
            want.append("STALE_SERVABLE")
    chk.eq(got, [n for n in STALE_NOTES if n in want], "staleness notes")


def send(start, status, hdrs, cc, req_start=None, rel=False):
    r = HttpResponseLinter(start_time=start)
    if rel:
        r.request = HttpRequestLinter(start_time=req_start)
    r.process_response_topline(b"HTTP/1.1", status, b"OK")
    if cc:
        hdrs = hdrs + [(b"Cache-Control", b", ".join(cc))]
    r.process_headers(hdrs)
    r.finish_content(True)
    return r


def lifetimes(inp, chk, na, nm, ns):
    """Age, max-age and s-maxage of any value of the given numbers of digits."""
    hdrs = [(b"ETag", b'"a"')] if inp.choice("etag", [False, True]) else []
    age = 0
    if na:
        a = inp.bytes("age", na, alphabet=D)
        hdrs = hdrs + [(b"Age", a)]
        age = int(a)
    cc = []
    flags = [f for f in ["public", "must-revalidate", "no-cache"] if inp.choice(f, [False, True])]
    m = s = None
    if nm:
        d = inp.bytes("max", nm, alphabet=D)
        cc.append(b"max-age=" + d)
        m = int(d)
    cc = cc + [f.encode() for f in flags]
    if ns:
        d = inp.bytes("smax", ns, alphabet=D)
        cc.append(b"s-maxage=" + d)
        s = int(d)
    status = inp.choice("status", [b"200", b"404"])
    r = send(inp.choice("start", [None, 1000000000]), status, hdrs, cc)
    model(chk, r, int(status), age, None, m, s, flags, len(hdrs) > (1 if na else 0))


def expires(inp, chk, nm):
    """Any Date and Expires within an hour, any response time around them."""
    ev, e = minute_date(inp, "e")
    hdrs = [(b"Expires", ev)]
    start = inp.int("start", 1309769000, 1309775000)
    t = start
    date = None
    if inp.choice("date", [True, False]):
        dv, date = minute_date(inp, "d")
        hdrs = [(b"Date", dv)] + hdrs
        t = date
    cc = []
    m = None
    if nm:
        d = inp.bytes("max", nm, alphabet=D)
        cc.append(b"max-age=" + d)
        m = int(d)
    age = 0
    if date is not None and start > date:
        age = start - date
    r = send(start, b"200", hdrs, cc)
    model(chk, r, 200, age, e - t, m, None, [], False)


def expires_odd(inp, chk):
    """Expires that isn't a date, is repeated, or comes without a local time."""
    ev, e = second_date(inp, "e")
    dv, date = second_date(inp, "d")
    k = inp.choice("k", range(5))
    start = inp.choice("start", [None, 1309770400])
    hdrs = [(b"Date", dv)]
    if k == 0:
        hdrs, life = hdrs + [(b"Expires", b"0")], -date
    elif k == 1:
        hdrs, life = hdrs + [(b"expires", ev), (b"Expires", b"Mon, 04 Jul 2011 10:08:06 GMT")], e - date
    elif k == 2:
        hdrs, life = hdrs + [(b"EXPIRES", ev)], e - date
    elif k == 3:
        hdrs, life = [(b"Expires", b"-1")] + hdrs, -date
    else:
        life = None
    cc = []
    s = None
    if inp.choice("s", [False, True]):
        d = inp.bytes("smax", 2, alphabet=D)
        cc.append(b"s-maxage=" + d)
        s = int(d)
    age = 0
    if start is not None and start > date:
        age = start - date
    r = send(start, b"200", hdrs, cc)
    model(chk, r, 200, age, life, None, s, [], False)


FLAGS = ["public", "must-revalidate", "proxy-revalidate", "stale-if-error", "stale-while-revalidate", "no-cache", "s-maxage", "max-age"]


def combos(inp, chk, first):
    """Every combination of directives and validators, with every status class, fresh and stale."""
    flags = [f for f in FLAGS if inp.choice(f, [False, True])]
    a = inp.bytes("age", 1, alphabet=D)
    v = inp.bytes("v", 1, alphabet=D)
    w = inp.bytes("w", 1, alphabet=D)
    cc = []
    for f in flags:
        if f == "max-age":
            cc.append(b"max-age=" + v)
        elif f == "s-maxage":
            cc.append(b"S-MaxAge=" + w)
        elif f in ("stale-if-error", "stale-while-revalidate"):
            cc.append(f.encode() + b"=5")
        else:
            cc.append(f.encode())
    status = first.encode()
    # responses that can't be stored aren't judged further
    inp.assume(status == b"200" or "public" in flags or "max-age" in flags or "s-maxage" in flags)
    val = inp.choice("val", [None, (b"ETag", b'W/"a"'), (b"Last-Modified", b"Mon, 04 Jul 2011 09:08:06 GMT"), (b"ETag", b"a b")])
    r = send(None, status, [(b"Age", a)] + ([val] if val else []), cc)
    model(chk, r, int(status), int(a), None, int(v) if "max-age" in flags else None, int(w) if "s-maxage" in flags else None,
          flags, val is not None)


def repeated(inp, chk):
    """Repeated directives: the first valid occurrence counts."""
    v = inp.bytes("v", 1, alphabet=D)
    w = inp.bytes("w", 1, alphabet=D)
    name = inp.choice("name", [b"max-age", b"s-maxage"])
    shape = inp.choice("shape", range(4))
    first = [[name + b"=" + v + b", " + name + b"=" + w], [name + b"=" + v, name + b"=" + w],
             [name + b"=x, " + name + b"=" + v], [b"private=\"a, b=" + w + b"\", " + name + b"=" + v]][shape]
    r = send(None, b"200", [(b"Cache-Control", l) for l in first], [])
    c = r.caching
    if name == b"max-age":
        chk.eq(c.freshness_lifetime_private, int(v), "first max-age")
    chk.eq(c.freshness_lifetime_shared, int(v), "first value in shared caches")


def unstorable(inp, chk):
    """Responses that can't be stored get no freshness or staleness verdict."""
    k = inp.choice("k", range(4))
    hdrs = [(b"Cache-Control", b"max-age=5, " + inp.choice("x", [b"no-store", b"No-Store", b"public, no-store", b"no-store, no-cache"]))]
    if k == 1:
        hdrs = [(b"Cache-Control", b"max-age=5, stale-if-error=6"), (b"Vary", inp.choice("v", [b"*", b"a, *", b"*, a"]))]
    if k == 2:
        hdrs = [(b"Cache-Control", b"no-cache, stale-while-revalidate=4")]
    status = b"200"
    if k == 2:
        status = inp.choice("st", [b"302", b"201", b"500"])
    r = HttpResponseLinter(start_time=1000000000)
    if k == 3:
        hdrs = [(b"Cache-Control", b"max-age=5, public")]
        r.request = lib.request([], method=inp.choice("m", [b"POST", b"PUT", b"get"]))
    r.process_response_topline(b"HTTP/1.1", status, b"OK")
    r.process_headers(hdrs)
    r.finish_content(True)
    for n in FRESH_NOTES + STALE_NOTES + ["CURRENT_AGE"]:
        chk(not lib.has(r, n), "no freshness verdict for a response that can't be stored", note=n)
    chk.reach("unstorable")


def tasks(tier):
    deep = tier == "thorough"
    out = [{"func": "lifetimes", "params": {"na": a, "nm": m, "ns": s}}
           for a, m, s in ((0, 0, 0), (1, 0, 0), (2, 2, 0), (2, 0, 2), (1, 2, 1), (2, 2, 2), (0, 3, 0), (4, 4, 0))]
    if deep:
        out += [{"func": "lifetimes", "params": {"na": a, "nm": m, "ns": s}} for a in range(0, 5, 2) for m in range(0, 5, 2) for s in range(0, 5, 2)]
    out += [{"func": "expires", "params": {"nm": n}} for n in ((0, 3) if not deep else (0, 1, 2, 3, 4, 9))]
    out += [{"func": "combos", "params": {"first": f}, "weight": 2} for f in ((b"200", b"302") if not deep else (b"200", b"302", b"404", b"500", b"206"))]
    for t in out:
        if "first" in t.get("params", {}):
            t["params"]["first"] = t["params"]["first"].decode()
    out += [{"func": "expires_odd"}, {"func": "repeated"}, {"func": "unstorable"}]
    return out


BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = {
    "quick": "Age, max-age and s-maxage of up to 2-4 digits in all combinations of presence; Date and Expires at any second of one hour, local time any second in a 6000-second window; every combination of 8 directives",
    "thorough": "as quick, values of up to 4 digits in all combinations, 9-digit max-age, five status codes",
}
OUTSIDE = "Date at the epoch itself; fractional local times; qualified no-cache; values beyond 9 digits (totality is covered by T01)"
MUST_REACH = ["both", "fresh", "stale", "unstorable"]
