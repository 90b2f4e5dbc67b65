"""P03: HSTS policies are judged as browsers apply them."""
import re

from harness import fields, lib

YEAR = 31536000
TOKEN = "[A-Za-z0-9!#$%&'*+.^_`|~-]+"
QUOTED = r'"(?:[\t !#-\[\]-~]|\\[\t -~])*"'
DIRECTIVE = re.compile(f" *(?:({TOKEN})(?: *= *(?:({TOKEN})|({QUOTED})))?)? *$")


def check(chk, value, directives, trailing=False, base="https://www.example.com/", status=b"200"):
    """`directives`: names and values (None when there's none; without quotes), or None if that isn't to be judged."""
    age = None
    sub = preload = False
    notes, seen = [], []
    for name, arg in directives:
        name = name.lower()
        if name in seen:
            notes.append("HSTS_DUPLICATE_DIRECTIVE")
            continue
        seen.append(name)
        if name == "max-age":
            if arg is None or not re.fullmatch("[0-9]+", arg):
                notes.append("HSTS_BAD_MAX_AGE")
            else:
                age = int(arg)
        elif name == "includesubdomains" or name == "preload":
            if name == "preload":
                preload = True
            else:
                sub = True
            if arg is not None:
                notes.append("HSTS_VALUE_NOT_ALLOWED")
    bad = len(notes) > 0
    if age is None:
        bad = True
        if "HSTS_BAD_MAX_AGE" not in notes:
            notes.append("HSTS_NO_MAX_AGE")
    elif age == 0:
        notes.append("HSTS_MAX_AGE_ZERO")
    elif age < YEAR:
        notes.append("HSTS_SHORT_MAX_AGE")
    if not preload:
        notes.append("HSTS_NO_PRELOAD")
    elif sub and age is not None and age >= YEAR:
        notes.append("HSTS_PRELOAD")
    else:
        notes.append("HSTS_PRELOAD_NOT_SUITABLE")
    notes.append("HSTS_SUBDOMAINS" if sub else "HSTS_NO_SUBDOMAINS")
    if base[:5] == "http:" and status != b"301":
        notes.append("HSTS_OVER_HTTP")
        bad = True
    if trailing:
        notes.append("HSTS_TRAILING_SEMICOLON")
    r = lib.response([(b"Strict-Transport-Security", value)], base_uri=base, status=status)
    top = [n for n in lib.all_names(r) if n in ("HSTS_VALID", "HSTS_INVALID")]
    chk.eq(top, ["HSTS_INVALID" if bad else "HSTS_VALID"], "policies are valid or not, once")
    parent = lib.find(r, top[0])
    chk.eq(sorted([type(n).__name__ for n in parent.subnotes]), sorted(notes), "what the policy says, and why it isn't valid")
    v = r.headers.parsed["strict-transport-security"]
    chk.eq([v["max-age"], v["includesubdomains"], v["preload"]], [age, sub, preload], "the policy's value")
    chk.reach("invalid" if bad else "valid")


ARGS = [("max-age", "31536000"), ("max-age", "31535999"), ("max-age", "0"), ("max-age", None), ("max-age", "1x"), ("includeSubDomains", None), ("includeSubDomains", "1"), ("preload", None), ("preload", "x"), ("foo", None), ("foo", "1"), ("max-agee", "5")]


def several(inp, chk, count, layout, base, status):
    """Directives from a table, in any order, quoted or not."""
    ds = [ARGS[inp.choice("d" + str(i), range(len(ARGS)))] for i in range(count)]
    quoted = inp.bool("quoted")
    upper = inp.bool("upper")
    out = []
    for n, v in ds:
        n = n.upper() if upper else n
        out.append(n if v is None else n + ("=\"" + v + "\"" if quoted else ("=", " = ")[layout == 2] + v))
    value = (";", "; ", " ; ")[layout].join(out)
    trailing = inp.bool("trailing")
    check(chk, (value + (";" if trailing else "")).encode(), ds, trailing, base, status.encode())


def age(inp, chk, n, quoted):
    """Any max-age: digits, in a token or quoted."""
    text = inp.text("age", n, alphabet="0123456789" if n > 3 else "0123456789-+.a_")
    value = "max-age=" + ('"' + text + '"' if quoted else text) + "; includeSubDomains; preload"
    check(chk, value.encode(), [("max-age", text), ("includesubdomains", None), ("preload", None)])
    chk.reach("age")


def cased(inp, chk):
    """Names in any letter case."""
    name = inp.choice("name", ["max-age", "preload", "includesubdomains"])
    value = fields.anycase(inp, name) + (b"=40000000" if name == "max-age" else b"")
    check(chk, value, [(name, "40000000" if name == "max-age" else None)])
    chk.reach("cased")


def split(text):
    """The directives of a value that has HSTS's syntax; None if it doesn't."""
    out = []
    quoted = escape = False
    part = ""
    parts = []
    for c in text:
        if quoted:
            part = part + c
            if escape:
                escape = False
            elif c == "\\":
                escape = True
            elif c == '"':
                quoted = False
        elif c == ";":
            parts.append(part)
            part = ""
        else:
            if c == '"':
                quoted = True
            part = part + c
    parts.append(part)
    for p in parts:
        m = DIRECTIVE.match(p)
        if m is None:
            return None
        if m.group(1) is None:
            continue
        arg = m.group(2)
        if m.group(3) is not None:
            arg = re.sub(r"\\(.)", r"\1", m.group(3)[1:-1])
        out.append((m.group(1), arg))
    return out, len(parts) > 1 and parts[-1].strip(" ") == ""


def syntax(inp, chk, n, before, after):
    """Any text that has the syntax, within or after a policy."""
    text = before + inp.text("text", n, alphabet="a1=; \"\\") + after
    inp.assume(text.strip(" ") == text)
    parsed = split(text)
    inp.assume(parsed is not None)
    ds, trailing = parsed
    inp.assume(len([n for n, v in ds]) > 0)
    check(chk, text.encode(), ds, trailing)
    chk.reach("syntax")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for count in (1, 2, 3) if deep else (1, 2):
        for layout in (0, 1, 2):
            for base, status in (("https://www.example.com/", "200"), ("http://www.example.com/", "200"), ("http://www.example.com/", "301"), ("", "404")):
                if count < 3 or base == "":
                    out.append(dict(func="several", params=dict(count=count, layout=layout, base=base, status=status), weight=4 ** count))
    for n in (0, 1, 2, 3, 7, 8, 9, 12):
        for quoted in (True, False):
            if n or quoted:
                out.append(dict(func="age", params=dict(n=n, quoted=quoted)))
    out.append(dict(func="cased", params={}))
    for n in (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 4):
        for before, after in (("max-age=", ""), ("max-age=31536000", ""), ("preload;", ";max-age=1"), ("a=\"", "\";max-age=1"), ("", "")):
            out.append(dict(func="syntax", params=dict(n=n, before=before, after=after), weight=3 ** n))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["valid", "invalid", "age", "cased", "syntax"]
BOUNDS = {
    "quick": "any two of 12 directives, quoted or not, in three layouts, over HTTP and HTTPS; max-age of any up to 3 characters (of 15) or 12 digits; the names in any case; up to 4 arbitrary characters (of 7) in five places of a policy",
    "thorough": "three directives, and up to 6 arbitrary characters",
}
OUTSIDE = "values that don't have the syntax (F04); policies with no directives; repeated fields; redirects (301) over HTTP are taken as httplint has them: they aren't reported"
ASSUMPTIONS = []
