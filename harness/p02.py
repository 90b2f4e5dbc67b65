"""P02: dates in cookies denote the time that RFC 6265 section 5.1.1 gives them."""
import re

from harness import lib
from harness.f07 import seconds
from harness.p01 import cookies

MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
D = "0123456789"
# delimiters within what can be sent in an attribute's value (that is, without ';')
DELIMITER = re.compile("[\t\x20-\x2f\x3c-\x40\x5b-\x60\x7b-\x7e]+")


def reference(text):
    """The time of a cookie-date, or None."""
    time = day = month = year = None
    for token in DELIMITER.split(text):
        if time is None:
            m = re.match(r"(\d\d?):(\d\d?):(\d\d?)(?!\d)", token, re.ASCII)
            if m:
                time = [int(m.group(1)), int(m.group(2)), int(m.group(3))]
                continue
        if day is None:
            m = re.match(r"(\d\d?)(?!\d)", token, re.ASCII)
            if m:
                day = int(m.group(1))
                continue
        if month is None:
            m = re.match("|".join(MONTHS), token, re.IGNORECASE)
            if m:
                month = MONTHS.index(m.group(0).lower()) + 1
                continue
        if year is None:
            m = re.match(r"(\d\d\d?\d?)(?!\d)", token, re.ASCII)
            if m:
                year = int(m.group(1))
                continue
    if time is None or day is None or month is None or year is None:
        return None
    if year >= 70 and year <= 99:
        year = year + 1900
    elif year <= 69:
        year = year + 2000
    if year < 1601 or time[2] > 59:
        return None
    return seconds(year, month, day, time[0], time[1], time[2])


def check(chk, text):
    r = cookies([b"sid=1; Expires=" + text.encode()], "", None)
    want = reference(text)
    attrs = [[k, v] for k, v in r.headers.parsed["set-cookie"][0][2]]
    chk.eq(lib.count(r, "SET_COOKIE_BAD_DATE"), 1 if want is None else 0, "dates that can't be read, and no others, are reported")
    chk.eq(attrs, [] if want is None else [["Expires", want]], "the time of the cookie's expiry")
    chk.reach("bad" if want is None else "good")


def numbers(inp, chk, which, month, order):
    """Any digits in parts of a date, in several orders and layouts."""
    year = inp.text("year", 4, alphabet=D) if "Y" in which else inp.text("year", 2, alphabet=D) if "y" in which else "2011"
    day = inp.text("day", 2, alphabet=D) if "d" in which else inp.text("day", 1, alphabet=D) if "1" in which else "29"
    h = inp.text("h", 2, alphabet=D) if "h" in which else "23"
    m = inp.text("m", 2, alphabet=D) if "m" in which else "59"
    s = inp.text("s", 2, alphabet=D) if "s" in which else "8"
    name = MONTHS[month - 1]
    time = h + ":" + m + ":" + s
    text = {
        "imf": "Tue, " + day + " " + name.capitalize() + " " + year + " " + time + " GMT",
        "dash": "Tuesday, " + day + "-" + name.upper() + "-" + year + " " + time + " GMT",
        "asctime": "Tue " + name + " " + day + " " + time + " " + year,
        "mixed": time + "/" + name + "uary." + day + "th@" + year + "AD",
    }[order]
    check(chk, text)


def window(inp, chk, at, delete, insert, base):
    """Any characters in any place of a date."""
    date = ["Tue, 29 Nov 2011 23:59:08 GMT", "Tuesday, 29-Nov-11 23:59:08 GMT", "23:59:08 1 2011 Feb 29 77"][base]
    text = date[:at] + inp.text("w", insert, alphabet="05:a,- Nov9") + date[at + delete:]
    inp.assume(text.strip(" ") == text)
    check(chk, text)
    chk.reach("window")


def free(inp, chk, n, rest):
    """Any short tokens before the rest of a date."""
    text = inp.text("w", n, alphabet="019: jJaAnN-x")
    inp.assume(text.strip(" ") == text)
    check(chk, text + rest)
    chk.reach("free")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for month in range(1, 13):
        for which in ("d", "1", "dy", "dY"):
            for order in ("imf", "dash", "asctime", "mixed") if deep or month in (2, 11) else ("imf",):
                out.append(dict(func="numbers", params=dict(which=which, month=month, order=order)))
    for which in ("hms", "Yh", "y"):
        for order in ("imf", "dash", "asctime", "mixed"):
            out.append(dict(func="numbers", params=dict(which=which, month=2, order=order)))
    for base, n in enumerate((29, 31, 25)):
        for at in range(n + 1):
            for delete, insert in ((0, 1), (1, 1), (1, 2), (2, 2), (3, 3), (0, 3)) if deep else ((0, 1), (1, 1), (2, 2)):
                if at + delete <= n:
                    out.append(dict(func="window", params=dict(at=at, delete=delete, insert=insert, base=base)))
    for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3):
        for rest in ("", " 29 nov 2011", " 23:59:08 nov 2011", " 23:59:08 29 2011", " 23:59:08 29 nov"):
            out.append(dict(func="free", params=dict(n=n, rest=rest), weight=n * n))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["good", "bad", "window", "free"]
BOUNDS = {
    "quick": "all digits of the year (2 or 4) and day, and of the time, in each month and four layouts; up to 2 arbitrary characters (of 11) in place of up to 2 at any place of three dates; up to 3 arbitrary characters before each of 5 partial dates",
    "thorough": "the same in every layout and month, with up to 3 arbitrary characters at any place, and 5 before a partial date",
}
OUTSIDE = "characters other than ASCII, and other than those listed; longer tokens"
ASSUMPTIONS = []
