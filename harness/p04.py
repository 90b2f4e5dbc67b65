"""P04: Range and Content-Range denote the positions they say, or are reported."""
import re

from harness import lib

TOKEN = "[A-Za-z0-9!#$%&'*+.^_`|~-]+"
SPEC = re.compile(r"(?:(\d+)-(\d*)|-(\d+))$", re.ASCII)
RANGE_NOTES = ["RANGE_BAD_SYNTAX", "RANGE_INVALID"]


def number(text):
    return int(text) if text else None


def check_range(chk, value, unit, specs):
    """`specs`: text of the ranges; unit None if there's none."""
    q = lib.request([(b"Range", value.encode())])
    want, bad = [], unit is None or not re.fullmatch(TOKEN, unit)
    for s in specs:
        s = s.strip(" ")
        m = SPEC.match(s)
        if m is None:
            # other units can have other ranges
            if unit is None or unit.lower() == "bytes" or not re.fullmatch(r"[!-+\--~]+", s):
                bad = True
            continue
        want.append([number(m.group(1)), number(m.group(2)) if m.group(1) else number(m.group(3))])
    got = q.headers.parsed["range"]
    if bad:
        chk(got is None, "ranges that aren't valid have no value", got=got)
        chk.eq(lib.count(q, "RANGE_BAD_SYNTAX"), 1, "ranges that don't have the syntax are reported, once")
        chk.reach("bad-range")
    else:
        chk.eq([got.unit, [[a, b] for a, b in got.ranges]], [unit, want], "the ranges' positions")
        chk.eq(lib.count(q, "RANGE_BAD_SYNTAX"), 0, "valid ranges aren't reported")
        chk.eq(lib.count(q, "RANGE_INVALID"), len([1 for a, b in want if a is not None and b is not None and a > b]), "ranges that end before they start are reported")
        chk.reach("range")


def digits(inp, chk, unit, sizes):
    """Ranges with any digits."""
    specs = []
    for i, (a, b) in enumerate(sizes):
        specs.append(inp.text("a" + str(i), a, alphabet="0123456789") + "-" + inp.text("b" + str(i), b, alphabet="0123456789"))
    sep = inp.choice("sep", [",", ", ", " , "])
    check_range(chk, unit + "=" + sep.join(specs), unit, specs)


def anyrange(inp, chk, n, before, after):
    """Any characters in a place of a Range."""
    text = before + inp.text("w", n, alphabet="b=-,01 xB*") + after
    inp.assume(text.strip(" ") == text)
    if "=" in text:
        i = text.index("=")
        unit, rest = text[:i], text[i + 1:]
        specs = rest.split(",")
        # empty members of the list aren't judged
        inp.assume(len([s for s in specs if s.strip(" ") == ""]) == 0)
        # nor ranges of other units that start like an integer range
        for s in specs:
            if unit.lower() != "bytes":
                inp.assume("-" not in s or SPEC.match(s.strip(" ")) is not None)
        check_range(chk, text, unit, specs)
    else:
        check_range(chk, text, None, [])
    chk.reach("any-range")


CR_NOTES = ["CONTENT_RANGE_MEANINGLESS", "CONTENT_RANGE_UNSATISFIED_BAD_SC", "CONTENT_RANGE_UNKNOWN_LENGTH"]
BAD_NOTES = ["CONTENT_RANGE_MISSING_UNIT", "CONTENT_RANGE_INVALID_ASTERISK", "CONTENT_RANGE_MISSING_SLASH", "RANGE_MISSING_HYPHEN", "RANGE_INVALID_INTEGER", "BAD_SYNTAX"]
CR = re.compile(rf"({TOKEN}) (?:(\d+)-(\d+)/(\d+|\*)|\*/(\d+))$", re.ASCII)


def check_content(chk, text, status):
    r = lib.response([(b"Content-Range", text.encode())], status=status)
    got = r.headers.parsed["content-range"]
    ns = lib.all_names(r)
    bad = len([n for n in ns if n in BAD_NOTES])
    chk.eq(ns.count("CONTENT_RANGE_MEANINGLESS"), 0 if status in (b"206", b"416") else 1, "Content-Range has a meaning in 206 and 416 only")
    m = CR.match(text)
    if m is None:
        chk(got is None, "Content-Range that isn't valid has no value", got=got)
        chk.eq(bad, 1, "Content-Range that isn't valid is reported, once")
        chk.reach("bad-content")
        return
    chk.eq(bad, 0, "valid Content-Range isn't reported")
    first, last = number(m.group(2)), number(m.group(3))
    unsat = m.group(2) is None
    if unsat:
        length = int(m.group(5))
    else:
        length = None if m.group(4) == "*" else int(m.group(4))
    chk.eq([got.unit, got.first_byte_pos, got.last_byte_pos, got.complete_length], [m.group(1), first, last, length], "the positions and length")
    want = 0
    if not unsat:
        want = (1 if first > last else 0) + (1 if length is not None and last >= length else 0)
    chk.eq(ns.count("RANGE_INVALID") > 0, want > 0, "impossible positions are reported")
    chk.eq(ns.count("CONTENT_RANGE_UNKNOWN_LENGTH"), 1 if not unsat and length is None else 0, "an unknown length is noticed")
    chk.eq(ns.count("CONTENT_RANGE_UNSATISFIED_BAD_SC"), 1 if unsat and status == b"206" else 0, "an unsatisfied range in 206 is reported")
    chk.reach("unsatisfied" if unsat else "content")


def content(inp, chk, status, sizes):
    """Any digits."""
    a, b, n = [inp.text("t" + str(i), k, alphabet="0123456789") for i, k in enumerate(sizes)]
    text = "bytes " + (a + "-" + b if a else "*") + "/" + (n or "*")
    check_content(chk, text, status.encode())


def anycontent(inp, chk, n, before, after, status):
    """Any characters in a place of a Content-Range."""
    text = before + inp.text("w", n, alphabet="b-/*01 ,x") + after
    inp.assume(text.strip(" ") == text)
    check_content(chk, text, status.encode())
    chk.reach("any-content")


def anystatus(inp, chk):
    status = inp.bytes("status", 3, alphabet="0123456789")
    inp.assume(status[0] >= 50)
    inp.assume(status[0] <= 53)
    check_content(chk, inp.choice("value", ["bytes 0-1/2", "bytes */5", "bytes 0-1/*"]), status)
    chk.reach("any-status")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for unit in ("bytes", "Bytes", "items"):
        for sizes in ([[1, 1]], [[2, 2]], [[3, 2]], [[5, 0]], [[0, 3]], [[10, 10]], [[1, 1], [1, 1]], [[2, 2], [0, 1], [3, 0]]) + (([[18, 18]], [[2, 2], [2, 2], [2, 2]]) if deep else ()):
            out.append(dict(func="digits", params=dict(unit=unit, sizes=sizes)))
    for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4):
        for before, after in (("", ""), ("bytes=", ""), ("bytes=0-1,", ""), ("x=", ""), ("bYTES=", ""), ("Bytes=0-1, ", ""), ("bytes=1", "2-3"), ("byte", "=0-")):
            out.append(dict(func="anyrange", params=dict(n=n, before=before, after=after), weight=3 ** n))
    for status in ("206", "416", "200"):
        for sizes in ([1, 1, 1], [2, 2, 2], [2, 3, 0], [0, 0, 2], [10, 10, 10], [0, 0, 0]) + (([18, 18, 18],) if deep else ()):
            out.append(dict(func="content", params=dict(status=status, sizes=sizes)))
        for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3):
            for before, after in (("", ""), ("bytes ", "/12"), ("bytes 1-2", ""), ("bytes", "5/7"), ("bytes 0-1/", ""), ("", "*/12")):
                out.append(dict(func="anycontent", params=dict(n=n, before=before, after=after, status=status), weight=3 ** n))
    out.append(dict(func="anystatus", params={}))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["range", "bad-range", "any-range", "content", "bad-content", "unsatisfied", "any-content", "any-status"]
BOUNDS = {
    "quick": "positions of up to 10 digits, in up to 3 ranges of three units; lengths of up to 10 digits, in three statuses; up to 4 (Range) or 3 (Content-Range) arbitrary characters in 8 and 6 places (after `bytes` in other letter cases too); all statuses from 200 to 599",
    "thorough": "positions of up to 18 digits; 5 arbitrary characters",
}
OUTSIDE = "empty members of Range's list; ranges of units other than bytes that start like an integer range; non-ASCII characters"
ASSUMPTIONS = []
