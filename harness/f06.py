"""F06: parameters have the names and values they denote, and faulty ones are reported."""
import re

from harness import lib
from harness.f04 import ODD, REQ, send
from harness.grammar import TOK, valid

BYTES = [c for c in range(256) if c not in ODD]
TOKEN = re.compile(TOK)

# parameters that can't be extended (RFC 8187), for each field
PLAIN = {"content-type": ["charset"], "accept": ["q"], "accept-language": ["q"], "accept-encoding": ["q"], "te": ["q"], "server-timing": ["desc"],
         "link": ["rel", "rev", "anchor", "hreflang", "type", "media"], "transfer-encoding": True, "accept-patch": [], "accept-post": [], "content-disposition": []}


def scan(text):
    """[(name, value, quoted)] of ;-separated parameters, read one character at a time."""
    out = []
    pos, end = 0, len(text)

    def ows(pos):
        while pos < end and text[pos] in " \t":
            pos += 1
        return pos

    while True:
        pos = ows(pos)
        if pos >= end:
            return out
        if text[pos] == ";":
            pos += 1
            continue
        m = TOKEN.match(text[pos:])
        name = m.group(0)
        pos = ows(pos + m.end())
        if pos >= end or text[pos] != "=":
            continue  # without a value
        pos = ows(pos + 1)
        if text[pos] == '"':
            pos += 1
            value = ""
            while text[pos] != '"':
                if text[pos] == "\\":
                    pos += 1
                value = value + text[pos]
                pos += 1
            pos += 1
            out.append((name, value, True))
        else:
            m = TOKEN.match(text[pos:])
            pos += m.end()
            out.append((name, m.group(0), False))


def percent(text):
    out = []
    pos = 0
    while pos < len(text):
        if text[pos] == "%" and pos + 2 < len(text) + 0 and re.match("[0-9A-Fa-f]{2}", text[pos + 1:pos + 3]):
            out.append(int(text[pos + 1:pos + 3], 16))
            pos += 3
        else:
            out.append(ord(text[pos]))
            pos += 1
    return bytes(out).decode("utf-8", "replace")


def expected(field, params):
    """(values by name, notes)"""
    values, notes = {}, []
    for name, value, quoted in params:
        low = name.lower()
        if low in values:
            notes.append("PARAM_REPEATS")
        if not quoted and len(value) > 1 and value[0] == "'" and value[-1] == "'":
            notes.append("PARAM_SINGLE_QUOTED")
        if name[-1] != "*":
            values[low] = value
            continue
        if PLAIN[field] is True or low[:-1] in PLAIN[field]:
            notes.append("PARAM_STAR_BAD")
            continue
        if quoted:
            notes.append("PARAM_STAR_QUOTED")
        parts = value.split("'")
        if len(parts) != 3:
            notes.append("PARAM_STAR_ERROR")
        elif parts[0] == "":
            notes.append("PARAM_STAR_NOCHARSET")
        elif parts[0].lower() != "utf-8":
            notes.append("PARAM_STAR_CHARSET")
        else:
            values[low] = percent(parts[2])
    return values, notes


NOTES = ["PARAM_REPEATS", "PARAM_SINGLE_QUOTED", "PARAM_STAR_BAD", "PARAM_STAR_QUOTED", "PARAM_STAR_ERROR", "PARAM_STAR_NOCHARSET", "PARAM_STAR_CHARSET"]


def value_of(field, r):
    v = r.headers.parsed[field]
    if field not in ("content-type", "content-disposition"):
        v = v[0]
    if field == "accept":
        return v.media_type, v.parameters
    return v


def judge(inp, chk, field, text):
    inp.assume(valid(text, field))
    r = send(field, [text.encode("latin-1")])
    main, params = value_of(field, r)
    if field == "link":
        cut = text.index(">") + 1
        first = text[1:cut - 1]
    else:
        cut = text.index(";") if ";" in text else len(text)
        first = text[:cut].strip()
        if field != "server-timing":
            first = first.lower()
    params_sent = scan(text[cut:])
    for name, value, quoted in params_sent:
        if quoted and name[-1] == "*":
            inp.assume("\\" not in text and re.fullmatch(r"[!#$%&'+\-.^_`|~0-9A-Za-z]*", value) is not None)
    want, notes = expected(field, params_sent)
    if field == "accept":
        want.pop("q", None)
    chk.eq(main, first, "what the parameters belong to")
    chk.eq(sorted([[k, v] for k, v in params.items()]), sorted([[k, v] for k, v in want.items()]), "parameters' names and values")
    chk.eq(sorted([n for n in lib.all_names(r) if n in NOTES]), sorted(notes), "faulty parameters are reported")
    for n in notes:
        chk.reach(n)
    if field == "content-disposition":
        filename, star = want.get("filename", None), want.get("filename*", None)
        chk.eq(lib.count(r, "DISPOSITION_UNKNOWN"), 0 if first in ("inline", "attachment") else 1, "unknown dispositions are reported")
        chk.eq(lib.count(r, "DISPOSITION_OMITS_FILENAME"), 1 if first == "attachment" and filename is None else 0, "attachments without a filename are reported")
        chk.eq(lib.count(r, "DISPOSITION_FILENAME_PERCENT"), 1 if filename is not None and "%" in filename else 0, "percent signs in filenames are reported")
        path = False
        for f in (filename, star):
            if f is not None and ("/" in f or "\\" in f):
                path = True
        chk.eq(lib.count(r, "DISPOSITION_FILENAME_PATH_CHAR"), 1 if path else 0, "path separators in filenames are reported")


SKELETONS = {
    "content-type": ['Text/html; Charset="a\\"b;c" ;x=y', "a/b;charset*=UTF-8''a;c*=utf-8'en'%41%c3%a9", "a/b; x=';';y='z'"],
    "content-disposition": ['attachment; filename="a/b%41.txt"', "attachment;filename*=UTF-8''a%2fb", "Inline; FileName=a; filename=b", "attachment; filename=\"a\"; filename*=\"UTF-8''b\"",
                            "x;filename*=iso-8859-1'en'a;a*=''b;c*=d"],
    "accept": ['a/b;C="d;e=f";q=0.25', "a/*;q*=utf-8''1;x*=utf-8''%e2%82%ac"],
    "te": ['a ; b = "c,;d";e=f;q=0.5', "a;b*=utf-8'x'c"],
    "transfer-encoding": ['gzip ; A = "c\\,d" ;e=f', "a;b*=utf-8''c;d=e"],
    "accept-encoding": ["gzip;q=0.1"],
    "accept-patch": ["text/example;charset=utf-8;x=\"\""],
    "accept-post": ["text/*;a=b;a=c"],
    "server-timing": ['Db;dur=53;desc="a b"', "x;Desc*=utf-8''c;a*=utf-8''%7e"],
    "link": ['<a;b>;rel="c d";REL=e', "<a> ; title*=UTF-8'de'n%c3%a4 ; media = \"a;b\"; x", "<>;hreflang*=utf-8''a;type='a'"],
}


def whole(inp, chk, field, n):
    """Any parameters of n bytes."""
    judge(inp, chk, field, BASE.get(field, "a") + ";" + inp.bytes("v", n, alphabet=BYTES).decode("latin-1"))


def edit(inp, chk, field, i, delete, insert):
    """Typical values with some bytes replaced by any others."""
    v = SKELETONS[field][i]
    pos = inp.choice("pos", range(0, len(v) - delete + 1))
    w = inp.bytes("w", insert, alphabet=BYTES).decode("latin-1") if insert else ""
    judge(inp, chk, field, v[:pos] + w + v[pos + delete:])


def extended(inp, chk, field, n):
    """Extended values with any percent-encoded bytes."""
    v = {"content-disposition": "attachment; filename*=utf-8'en'", "content-type": "a/b;x*=UTF-8''", "server-timing": "a;b*=utf-8''", "link": "</>;title*=UTF-8''"}[field]
    for i in range(n - 1):
        v = v + "%" + inp.choice("h%d" % i, ["41", "C3", "a9", "e2", "82", "F0", "ff", "c0", "ed", "2F"])
    v = v + "%" + inp.choice("h", "0123456789ABCDEFabcdef" if n == 1 else "258aBF") + inp.bytes("l", 1, alphabet=b"0123456789ABCDEFabcdef").decode("latin-1")
    judge(inp, chk, field, v + "z")


BASE = {"content-type": "a/b", "content-disposition": "inline", "accept": "a/b", "accept-patch": "a/b", "accept-post": "a/*", "link": "<>"}
NAMES = ["charset", "q", "desc", "dur", "rel", "rev", "anchor", "hreflang", "type", "media", "title", "filename", "x"]


def starred(inp, chk, field):
    """Every field's parameters' names, and others', extended."""
    name = inp.choice("name", NAMES)
    if inp.bool("upper"):
        name = name.upper()
    other = inp.choice("other", ["", ";a=b", ";" + name + "=c"])
    value = inp.choice("value", ["utf-8''d", "utf-8", "''d", "x'en'd"])
    text = name + "*=" + value
    judge(inp, chk, field, BASE.get(field, "a") + (other + ";" + text if inp.bool("after") else ";" + text + other))
    chk.reach("starred")


QUOTABLE = [c for c in BYTES if c in (9, 32, 33) or 35 <= c < 92 or 92 < c < 127 or c > 127]
TOKENS = [c for c in range(33, 127) if chr(c) not in '"(),/:;<=>?@[\\]{}\'']


def many(inp, chk, field):
    """Many parameters, or long ones, one of them with any character in its value."""
    n, size = inp.choice("size", [[7, 1], [7, 300], [40, 1]] + ([[130, 1]] if field == "content-type" else []))
    at = inp.choice("at", [0, n // 2, n - 1])
    quoted = inp.bool("quoted")
    w = inp.bytes("w", 1, alphabet=QUOTABLE if quoted else TOKENS).decode("latin-1")
    text = BASE.get(field, "a")
    want = []
    for i in range(n):
        name, v = "p" * size + str(i), "v" * size + (w if i == at else "")
        text = text + ";" + name.upper() + "=" + ('"' + v + '"' if quoted else v)
        want.append([name, v])
    r = send(field, [text.encode("latin-1")])
    main, params = value_of(field, r)
    chk.eq([[k, v] for k, v in params.items()], want, "all the parameters' names and values")
    chk.eq([x for x in lib.all_names(r) if x in NOTES + ["BAD_SYNTAX", "BAD_SYNTAX_DETAILED"]], [], "and nothing is wrong with them")
    chk.reach("many")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for field in SKELETONS:
        for n in (3, 4, 5, 6) if deep else (3, 4):
            out.append({"func": "whole", "params": {"field": field, "n": n}, "weight": n})
        for i in range(len(SKELETONS[field])):
            for delete, insert in ((1, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2)) if deep else ((1, 0), (0, 1), (1, 1)):
                out.append({"func": "edit", "params": {"field": field, "i": i, "delete": delete, "insert": insert}, "weight": 3})
    for field in PLAIN:
        if field in SKELETONS and field != "accept-encoding":
            out.append({"func": "many", "params": {"field": field}, "weight": 5})
            out.append({"func": "starred", "params": {"field": field}})
    for field in ("content-disposition", "content-type", "server-timing", "link"):
        for n in (1, 2, 3) if deep else (1, 2):
            out.append({"func": "extended", "params": {"field": field, "n": n}})
    return out


BUDGET = {"quick": 150, "thorough": 800}
BOUNDS = {
    "quick": "10 fields with parameters: any parameters of 3 and 4 bytes; 1-5 typical values with any byte inserted, removed or replaced anywhere; extended values with any percent-encoded byte, and with 132 of them after one of ten others; 13 parameters' names, extended in four ways next to others; up to 130 parameters, or 7 of 300 characters, with any character in one of them",
    "thorough": "any parameters of 3-6 bytes; up to two bytes replaced by up to two; after two of ten others",
}
OUTSIDE = "values without their field's syntax (F04); values of extended parameters repeated after a faulty one; parameters of Structured Fields (F08)"
MUST_REACH = NOTES + ["starred", "many"]
