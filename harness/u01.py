"""U01: durations and times in notes read as what was observed, rounded."""
import datetime
import re

from harness import lib
from httplint.util import relative_time

DATE, WHEN = b"Mon, 04 Jul 2011 09:08:06 GMT", 1309770486
UNITS = [("year", 31536000), ("month", 2592000), ("week", 604800), ("day", 86400), ("hour", 3600), ("minute", 60), ("second", 1)]
D = list(range(48, 58))


def setup_symbolic():
    from sx import rt

    rt.model(datetime.timedelta, rt.m_timedelta)


FORM = {
    0: "([0-9]+) ([a-z]+)",
    1: "(?:in )?([0-9]+) ([a-z]+)(?: ago)?",
    2: "([0-9]+) ([a-z]+) (?:ahead|behind)",
}


def reads(chk, text, delta, mode, label):
    """It's in the largest unit of which there are 1.2, rounded, with the right words around it."""
    m = re.fullmatch(FORM[mode], text)
    chk(m is not None, label + ": is an interval", text=text)
    if m is None:
        return
    size = -delta if delta < 0 else delta
    for unit, per in UNITS:
        if size * 10 >= per * 12 or per == 1:
            break
    count = int(m.group(1))
    chk.eq(m.group(2), unit + ("" if count == 1 else "s"), label + ": the unit is right")
    chk(2 * size - 2 * per * count <= per, label + ": isn't too short", text=text)
    chk(2 * per * count - 2 * size <= per, label + ": isn't too long", text=text)
    if mode == 1:
        chk.eq([text.startswith("in "), text.endswith(" ago")], [True, False] if delta >= 0 else [False, True], label + ": past or future")
    if mode == 2:
        chk.eq(text.endswith(" ahead"), True if delta > 0 else False, label + ": ahead or behind")


def says(inp, chk, lo, hi, mode, base):
    """Any interval."""
    delta = inp.int("delta", lo, hi)
    reads(chk, str(relative_time(base + delta, base, mode)), delta, mode, "any")
    chk.reach("interval")


def received(inp, fields, lo, hi, **kw):
    """A response received that many seconds after its Date."""
    late = inp.int("late", lo, hi)
    return late, lib.response([(b"Date", DATE)] + fields, start_time=WHEN + late, **kw)


def shown(chk, r, note, want, label):
    n = lib.find(r, note)
    chk(n is not None, note + " is there")
    if n is not None:
        for k in sorted(want):
            if isinstance(want[k], str):
                chk.eq(n.vars[k], want[k], label + " (" + k + ")")
            else:
                reads(chk, str(n.vars[k]), want[k][0], want[k][1], label + " (" + k + ")")
        chk.reach(note)


def current(inp, chk, lo, hi):
    """How old the response is, in the note about that and in that about freshness."""
    late, r = received(inp, [(b"Cache-Control", b"max-age=7200")], lo, hi)
    if late >= 1:
        shown(chk, r, "CURRENT_AGE", dict(age=(late, 0)), "the age is given")
    want = dict(freshness_lifetime=(7200, 0), freshness_left=(7200 - late, 0), current_age=(late, 0))
    shown(chk, r, "FRESHNESS_FRESH" if late < 7200 else "FRESHNESS_STALE_ALREADY", want, "freshness is described")


def aged(inp, chk, prefix, n):
    """With an Age."""
    age = prefix.encode() + inp.bytes("a", n, alphabet=D)
    r = lib.response([(b"Age", age), (b"Cache-Control", b"max-age=60")])
    age = int(age)
    if age >= 1:
        shown(chk, r, "CURRENT_AGE", dict(age=(age, 0)), "the age is given")
    want = dict(freshness_lifetime=(60, 0), freshness_left=(60 - age, 0), current_age=(age, 0))
    shown(chk, r, "FRESHNESS_FRESH" if age < 60 else "FRESHNESS_STALE_ALREADY", want, "freshness is described")


def lifetime(inp, chk, prefix, n, late):
    """Any lifetime."""
    life = prefix.encode() + inp.bytes("m", n, alphabet=D)
    r = lib.response([(b"Date", DATE), (b"Cache-Control", b"max-age=" + life)], start_time=WHEN + late)
    life = int(life)
    want = dict(freshness_lifetime=(life, 0), freshness_left=(life - late, 0), current_age=(late, 0))
    shown(chk, r, "FRESHNESS_FRESH" if life > late else "FRESHNESS_STALE_ALREADY", want, "freshness is described")


def expiry(inp, chk, late):
    """Any time of expiry, in the past too."""
    h = inp.bytes("h", 2, alphabet=D)
    inp.assume((h[0] - 48) * 10 + h[1] - 48 < 24)
    m = inp.bytes("m", 1, alphabet=range(48, 54))
    r = lib.response([(b"Date", DATE), (b"Expires", b"Mon, 04 Jul 2011 " + h + b":" + m + b"8:06 GMT")], start_time=WHEN + late)
    life = (int(h) - 9) * 3600 + (m[0] - 48) * 600
    want = dict(freshness_lifetime=(life if life > 0 else 0, 0), freshness_left=(life - late, 0), current_age=(late, 0))
    shown(chk, r, "FRESHNESS_FRESH" if life > late else "FRESHNESS_STALE_ALREADY", want, "freshness is described")


def shared(inp, chk, private, public, lo, hi):
    """Different lifetimes for shared caches."""
    late, r = received(inp, [(b"Cache-Control", ("max-age=" + str(private) + ", s-maxage=" + str(public)).encode())], lo, hi)
    want = dict(
        fresh_lifetime=(private, 0), fresh_left=(private - late, 0), private_status="fresh" if private > late else "stale",
        share_lifetime=(public, 0), share_left=(public - late, 0), shared_status="fresh" if public > late else "stale",
    )
    shown(chk, r, "FRESHNESS_SHARED_PRIVATE", want, "freshness in each kind of cache is described")


def skew(inp, chk, lo, hi, age):
    """How wrong the server's clock is."""
    late, r = received(inp, [(b"Age", str(age).encode())] if age else [], lo, hi)
    off = age - late
    if off > 5 or off < -5:
        shown(chk, r, "DATE_INCORRECT", dict(clock_skew_string=(off, 2)), "the clock's error is given")


def modified(inp, chk, day, dated):
    """How long ago the last change was."""
    h = inp.bytes("h", 2, alphabet=D)
    inp.assume((h[0] - 48) * 10 + h[1] - 48 < 24)
    m = inp.bytes("m", 1, alphabet=range(48, 54))
    fields = [(b"Date", DATE)] if dated else []
    r = lib.response(fields + [(b"Last-Modified", b"Mon, 0" + str(day).encode() + b" Jul 2011 " + h + b":" + m + b"8:06 GMT")], start_time=WHEN)
    delta = (day - 4) * 86400 + (int(h) - 9) * 3600 + (m[0] - 48) * 600
    if delta <= 0:
        shown(chk, r, "LM_PRESENT", dict(last_modified_string=(delta, 1)), "the time since the last change is given")


def cookie(inp, chk, kind, prefix, n):
    """How long cookies that live too long do."""
    if kind == "age":
        life = prefix.encode() + inp.bytes("m", n, alphabet=D)
        r = lib.response([(b"Set-Cookie", b"a=b; Max-Age=" + life)])
        life = int(life)
    else:
        now = inp.int("now", 1000000000 - 100000000, 1000000000 - 34560000)
        r = lib.response([(b"Set-Cookie", b"a=b; Expires=Sun, 09 Sep 2001 01:46:40 GMT")], start_time=now)
        life = 1000000000 - now
    if life > 34560000:
        shown(chk, r, "SET_COOKIE_LIFETIME_TOO_LONG", dict(duration=(life, 0)), "the cookie's lifetime is given")


def tasks(tier):
    deep = tier != "quick"
    out = []
    edges = [0, 60, 3600, 86400, 604800, 2592000, 31536000, 100 * 31536000]
    for mode in (0, 1, 2):
        for base in ((0, 1000000000) if deep or mode == 1 else (0,)):
            for a, b in zip(edges, edges[1:]):
                out.append(dict(func="says", params=dict(lo=a, hi=b, mode=mode, base=base), weight=3))
                out.append(dict(func="says", params=dict(lo=-b, hi=-a, mode=mode, base=base), weight=3))
    for a, b in [(0, 200), (5000, 20000)] + ([(200, 5000), (20000, 40000000)] if deep else []):
        out.append(dict(func="current", params=dict(lo=a, hi=b), weight=5))
    for prefix, n in [("", 1), ("", 2), ("1", 4), ("21474", 5)] + ([("", 3), ("9", 6)] if deep else []):
        out.append(dict(func="aged", params=dict(prefix=prefix, n=n)))
        for late in (0, 90):
            out.append(dict(func="lifetime", params=dict(prefix=prefix, n=n, late=late)))
    for late in (0, 90, 40000):
        out.append(dict(func="expiry", params=dict(late=late), weight=5))
    for private, public in [(60, 120), (7200, 0), (0, 31536000)]:
        out.append(dict(func="shared", params=dict(private=private, public=public, lo=0, hi=200 if not deep else 20000), weight=5))
    for a, b in [(-200, 200), (-40000000, -10000), (10000, 40000000)]:
        for age in (0, 3):
            out.append(dict(func="skew", params=dict(lo=a, hi=b, age=age), weight=3))
    for day in (1, 3, 4, 5):
        for dated in (True, False):
            out.append(dict(func="modified", params=dict(day=day, dated=dated)))
    for prefix in ("3", "34", "3456", "99"):
        out.append(dict(func="cookie", params=dict(kind="age", prefix=prefix, n=8 - len(prefix))))
    out.append(dict(func="cookie", params=dict(kind="expires", prefix="", n=0)))
    return out


BOUNDS = {
    "quick": "all intervals of up to 100 years in whole seconds, before and after, in the three forms; responses received 0 to 200 and 5000 to 20000 s after their Date; Ages and lifetimes of up to 2 digits, and of 1xxxx and 21474xxxxx; Expires and Last-Modified every 10 minutes of a day (of 4 days), in three states; three pairs of lifetimes; clocks wrong by up to 200, and by 10000 to 40000000 s; cookies of 30000000 s to 1157 days",
    "thorough": "also Ages and lifetimes of 3 and 7 digits, and responses received up to 40000000 s late",
}
OUTSIDE = "fractions of seconds; other languages' words (T02 shows that they can be rendered); what is left of a lifetime whose Expires is invalid; intervals too long for timedelta (T02)"
ASSUMPTIONS = ["timedelta of a whole number of seconds, and division of integers below 2^53, are modelled exactly; babel.dates is executed symbolically"]
BUDGET = {"quick": 120, "thorough": 600}
CONTINUE = True
MUST_REACH = ["interval", "CURRENT_AGE", "FRESHNESS_FRESH", "FRESHNESS_STALE_ALREADY", "FRESHNESS_SHARED_PRIVATE", "DATE_INCORRECT", "LM_PRESENT", "SET_COOKIE_LIFETIME_TOO_LONG"]
