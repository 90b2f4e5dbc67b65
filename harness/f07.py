"""F07: HTTP dates denote the time they say, in all three formats."""
from harness import lib

MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
LENGTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
FIELDS = ["Date", "Expires", "Last-Modified", "Sunset"]
D = "0123456789"


def seconds(year, month, day, hour, minute, second):
    """Seconds since 1970 (proleptic Gregorian calendar); None if there's no such time."""
    leap = (year % 4 == 0 and year % 100 != 0) or year % 400 == 0
    length = 29 if month == 2 and leap else LENGTH[month - 1]
    if year < 1 or day < 1 or day > length or hour > 23 or minute > 59 or second > 60:
        return None
    y = year - 1
    days = y * 365 + y // 4 - y // 100 + y // 400 + sum(LENGTH[:month - 1]) - 719162
    if month > 2 and leap:
        days = days + 1
    days = days + day - 1
    return ((days * 24 + hour) * 60 + minute) * 60 + second


def check(chk, name, value, want, obsolete):
    r = lib.response([(name.encode(), value)], start_time=None)
    got = r.headers.parsed[name.lower()]
    n = [lib.count(r, "BAD_DATE_SYNTAX"), lib.count(r, "DATE_OBSOLETE")]
    if want is None:
        chk(got is None, "dates that aren't valid have no value", got=got)
        chk.eq(n[0], 1, "dates that aren't valid are reported")
        chk.reach("bad")
    else:
        chk(got is not None, "valid dates have a value")
        chk.eq(got, want, "the time the date says")
        chk.eq(n, [0, 1 if obsolete else 0], "obsolete formats are reported")
        chk.reach("good")


def time(inp, which):
    """Digits of the time of day; only the parts named in `which` are symbolic."""
    t = []
    for k, c in (("h", b"09"), ("m", b"08"), ("s", b"06")):
        t.append(inp.bytes(k, 2, alphabet=D) if k in which else c)
    return t


def imf(inp, chk, name, month, which):
    """IMF-fixdate."""
    year = inp.bytes("year", 4, alphabet=D) if "y" in which else b"2012"
    day = inp.bytes("day", 2, alphabet=D) if "d" in which else b"04"
    wd = inp.choice("wd", DAYS if "w" in which else DAYS[:1])
    h, m, s = time(inp, which)
    value = wd[:3].encode() + b", " + day + b" " + MONTHS[month - 1].encode() + b" " + year + b" " + h + b":" + m + b":" + s + b" GMT"
    check(chk, name, value, seconds(int(year), month, int(day), int(h), int(m), int(s)), False)


def rfc850(inp, chk, name, month, which):
    year = inp.bytes("year", 2, alphabet=D) if "y" in which else b"94"
    inp.assume(int(year) <= 68 or int(year) >= 77)  # the years between depend on the current year
    day = inp.bytes("day", 2, alphabet=D) if "d" in which else b"04"
    wd = inp.choice("wd", DAYS if "w" in which else DAYS[:1])
    h, m, s = time(inp, which)
    value = wd.encode() + b", " + day + b"-" + MONTHS[month - 1].encode() + b"-" + year + b" " + h + b":" + m + b":" + s + b" GMT"
    y = int(year)
    check(chk, name, value, seconds(y + 2000 if y <= 68 else y + 1900, month, int(day), int(h), int(m), int(s)), True)


def asctime(inp, chk, name, month, which):
    year = inp.bytes("year", 4, alphabet=D) if "y" in which else b"1994"
    if inp.choice("padded", [False, True]):
        day = inp.bytes("day", 1, alphabet=D)
        text = b" " + day
    else:
        text = day = inp.bytes("day", 2, alphabet=D)
    wd = inp.choice("wd", DAYS if "w" in which else DAYS[:1])
    h, m, s = time(inp, which)
    value = wd[:3].encode() + b" " + MONTHS[month - 1].encode() + b" " + text + b" " + h + b":" + m + b":" + s + b" " + year
    check(chk, name, value, seconds(int(year), month, int(day), int(h), int(m), int(s)), True)


SAMPLE = [b"Sun, 06 Nov 1994 08:49:37 GMT", b"Sunday, 06-Nov-94 08:49:37 GMT", b"Sun Nov  6 08:49:37 1994", b"Tue, 31 May 2022 23:59:60 GMT"]
LETTERS = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def damaged(inp, chk, name, i, delete, insert):
    """A valid date with a byte changed, removed or added isn't a date, unless it still has the syntax of one (or another letter case)."""
    v = SAMPLE[i]
    pos = inp.choice("pos", range(0, len(v) - delete + 1))
    w = inp.bytes("w", insert)
    for k in range(insert):
        old = v[pos + k] if k < delete else 0
        inp.assume(w[k] > 32 or 0 < pos < len(v))  # surrounding whitespace isn't part of the value
        inp.assume(w[k] != 133 and w[k] != 160 or 0 < pos < len(v))
        if old in LETTERS:
            inp.assume(w[k] != old and w[k] != old ^ 32)
        elif old != 0 and old in b"0123456789":
            inp.assume(w[k] < 48 or w[k] > 57)
        elif old != 0:
            inp.assume(w[k] != old)
    value = v[:pos] + w + v[pos + delete:]
    if insert == 0 or delete == 0:
        inp.assume(value.lower() not in others(v, i))
    if delete == 1 and insert == 1 and i == 2 and pos == 8:
        inp.assume(w[0] < 48 or w[0] > 57)  # a second digit of the day
    if delete == 1 and insert == 1 and pos < 3:
        # another day's or month's name
        inp.assume(value[:3].lower() not in [x[:3].lower().encode() for x in DAYS])
    if delete == 1 and insert == 1:
        for m in MONTHS:
            for q in (7, 8, 4):
                inp.assume(value[q:q + 3].lower() != m.lower().encode() or v[q:q + 3].lower() == m.lower().encode())
    check(chk, name, value, None, False)


def others(v, i):
    """Values made by removing or adding one byte that are the same date."""
    return []


def whole(inp, chk, name, n):
    """Values too short to be dates."""
    v = inp.bytes("v", n)
    check(chk, name, v, None, False)


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for fmt in ("imf", "rfc850", "asctime"):
        for month in range(1, 13):
            for name in FIELDS if deep or month == 2 else [FIELDS[month % 4]]:
                out.append({"func": fmt, "params": {"name": name, "month": month, "which": "yd"}})
                if month in (2, 7):
                    out.append({"func": fmt, "params": {"name": name, "month": month, "which": "hmsw"}})
                if deep:
                    out.append({"func": fmt, "params": {"name": name, "month": month, "which": "ydhms"}})
    for name in FIELDS if deep else FIELDS[:2]:
        for i in range(len(SAMPLE)):
            for d, n in ((1, 1), (1, 0), (0, 1)):
                out.append({"func": "damaged", "params": {"name": name, "i": i, "delete": d, "insert": n}})
    for name in FIELDS:
        for n in (0, 1, 2, 3):
            out.append({"func": "whole", "params": {"name": name, "n": n}})
    return out


BUDGET = {"quick": 90, "thorough": 500}
BOUNDS = {
    "quick": "Date, Expires, Last-Modified and Sunset in IMF-fixdate, RFC 850 and asctime format: every 4-digit (or 2-digit) year and day of every month, every two-digit hour, minute and second, every day name; four dates with any one byte replaced, removed or added; every value of 0-3 bytes",
    "thorough": "as quick, with date and time symbolic together on all four fields",
}
OUTSIDE = "RFC 850 years 69-76, whose century depends on the current year; other letter cases; wrong day names"
MUST_REACH = ["good", "bad"]
