"""C05: Cache-Control directives: recognition, arguments, placement, repetition and conflicts."""
from harness import lib
from harness.dates import D

# name: (valid in requests, valid in responses, argument); RFC 9111 section 5.2, RFC 5861, RFC 8246, and Microsoft's extensions
TABLE = {
    "immutable": (False, True, "none"), "max-age": (True, True, "int"), "max-stale": (True, False, "optint"), "min-fresh": (True, False, "int"),
    "must-revalidate": (False, True, "none"), "must-understand": (False, True, "none"), "no-cache": (True, True, "optstr"),
    "no-store": (True, True, "none"), "no-transform": (True, True, "none"), "only-if-cached": (True, False, "none"),
    "private": (False, True, "optstr"), "proxy-revalidate": (False, True, "none"), "public": (False, True, "none"),
    "s-maxage": (False, True, "int"), "stale-if-error": (False, True, "int"), "stale-while-revalidate": (False, True, "int"),
    "pre-check": (False, True, "int"), "post-check": (False, True, "int"),
}
NAMES = sorted(TABLE)
CC_NOTES = ["CC_SHOULD_NOT_HAVE_VALUE", "CC_BAD_VALUE_TYPE", "CC_MAX_AGE_TOO_LARGE", "CC_MISCAP", "CC_DUP", "CC_CONFLICTING", "CC_WRONG_MESSAGE"]
REVALIDATE = ["stale-if-error", "stale-while-revalidate", "pre-check", "post-check"]
FRESH = ["immutable", "max-age", "must-revalidate", "proxy-revalidate", "s-maxage"] + REVALIDATE
OVERRIDES = [("no-store", FRESH + ["no-cache", "private", "public"]), ("no-cache", FRESH), ("must-revalidate", ["immutable"] + REVALIDATE)]
TOKEN = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyz"


def counts(r):
    return [lib.count(r, n) for n in CC_NOTES]


def want(**kw):
    return [kw.get(n, 0) for n in CC_NOTES]


def send(inp, kind, lines):
    if kind == "request":
        return lib.request([(b"Cache-Control", l) for l in lines])
    return lib.response([(b"Cache-Control", l) for l in lines])


def argument(inp, chk, name, n, kind):
    """A known directive with no argument (n < 0) or any token argument of n bytes."""
    req, resp, arg = TABLE[name]
    v = None if n < 0 else inp.bytes("v", n, alphabet=TOKEN)
    r = send(inp, kind, [name.encode() if v is None else name.encode() + b"=" + v])
    got = r.headers.parsed["cache-control"]
    digits = v is not None and n > 0
    total = 0
    for b in v or b"":
        if b >= 48 and b <= 57:
            total = total * 10 + (b - 48)
        else:
            digits = False
    here = req if kind == "request" else resp
    w = {}
    if arg == "none":
        if v is not None:
            w["CC_SHOULD_NOT_HAVE_VALUE"] = 1
        value = None if v is None else v.decode("ascii")
        ok = True
    elif arg == "int" or (arg == "optint" and v is not None):
        ok = digits
        value = total
        if not ok:
            w["CC_BAD_VALUE_TYPE"] = 1
    elif arg == "optint":
        ok, value = True, None
    else:
        ok, value = True, None if v is None else v.decode("ascii")
    if ok and not here:
        w["CC_WRONG_MESSAGE"] = 1
    chk.eq(counts(r), want(**w), "Cache-Control notes", name=name)
    chk.eq(got, [(name, value)] if ok else [], "value of Cache-Control")
    if ok:
        chk.reach("accepted")
    else:
        chk.reach("rejected")


def quoted(inp, chk, name, n):
    """Quoted arguments of any bytes that may be quoted, commas included."""
    v = inp.bytes("v", n, alphabet=[9, 32, 33] + list(range(35, 92)) + list(range(93, 127)))
    r = send(inp, "response", [name.encode() + b'="' + v + b'", x="' + v + b'"'])
    chk.eq(r.headers.parsed["cache-control"], [(name, v.decode("ascii")), ("x", '"' + v.decode("ascii") + '"')],
           "quoted arguments are kept whole")
    chk.eq(counts(r), want(), "no Cache-Control notes")


def unknown(inp, chk, n, upper):
    """Extension directives of any token of n bytes."""
    alphabet = TOKEN + ("ABCDEFGHIJKLMNOPQRSTUVWXYZ" if upper else "")
    d = inp.bytes("d", n, alphabet=alphabet)
    v = inp.choice("v", [None, b"1", b'"a b"'])
    kind = inp.choice("kind", ["request", "response"])
    twice = inp.choice("twice", [False, True])
    text = d if v is None else d + b"=" + v
    r = send(inp, kind, [text + b", " + text] if twice else [text])
    k = 2 if twice else 1
    cap = False
    for b in d:
        if b >= 65 and b <= 90:
            cap = True
    chk.eq(counts(r), want(CC_MISCAP=k if cap else 0), "Cache-Control notes")
    value = (d.decode("ascii").lower(), None if v is None else v.decode("ascii"))
    chk.eq(r.headers.parsed["cache-control"], [value] * k, "value of Cache-Control")


def large(inp, chk, name):
    d = inp.bytes("d", 4, alphabet=D)
    v = b"214748" + d
    inp.assume(int(v) != 2147483648)  # 2^31 itself: RFC 9111 gives it a meaning, the note's text says otherwise
    r = send(inp, "response", [name.encode() + b"=" + v])
    chk.eq(lib.count(r, "CC_MAX_AGE_TOO_LARGE"), 1 if int(v) > 2147483648 else 0, "large values are reported")
    chk.eq(r.headers.parsed["cache-control"], [(name, int(v))], "value of Cache-Control")


SET = ["no-store", "no-cache", "must-revalidate", "immutable", "max-age", "stale-if-error", "public", "private", "must-understand", "no-transform"]


def text(d):
    return {"max-age": b"max-age=1", "stale-if-error": b"stale-if-error=1", "s-maxage": b"s-maxage=1", "stale-while-revalidate": b"stale-while-revalidate=1",
            "pre-check": b"pre-check=1", "post-check": b"post-check=1", "max-stale": b"max-stale", "min-fresh": b"min-fresh=1"}.get(d, d.encode())


def expect(kind, ds):
    """Number of notes of each kind for a list of directives."""
    w = {}
    if kind == "response":
        for o, over in OVERRIDES:
            if o in ds and [x for x in over if x in ds]:
                w["CC_CONFLICTING"] = 1
                break
    wrong = dup = 0
    for d in dict.fromkeys(ds):
        if not TABLE[d][0 if kind == "request" else 1]:
            wrong = wrong + 1
        elif ds.count(d) > 1:
            dup = dup + 1
    w["CC_WRONG_MESSAGE"] = wrong
    w["CC_DUP"] = dup
    return w


def conflicts(inp, chk, kind):
    ds = [d for d in SET if inp.choice(d, [False, True])]
    inp.assume(len(ds) > 0)
    if inp.choice("reverse", [False, True]):
        ds = ds[::-1]
    r = send(inp, kind, [b", ".join([text(d) for d in ds])])
    chk.eq(counts(r), want(**expect(kind, ds)), "notes about conflicts and placement", directives=ds)
    n = lib.find(r, "CC_CONFLICTING")
    if n is not None:
        for o, over in OVERRIDES:
            hit = [x for x in over if x in ds]
            if o in ds and hit:
                chk.eq(n.vars["directive"], o, "overriding directive")
                shown = str(n.vars["conflicts"])
                for x in SET:
                    chk.eq("`" + x + "`" in shown, x in hit, "overridden directives listed", x=x)
                break
        chk.reach("conflict")


def pairs(inp, chk, kind, second):
    """Every pair of directives, in one or two lines, with repetition and letter case."""
    a = inp.choice("a", NAMES)
    b = inp.choice("b", [second])
    shape = inp.choice("shape", range(4))
    ta, tb = text(a), text(b)
    upper = inp.choice("upper", [False, True])
    if upper:
        tb = tb.upper()
    lines = [[ta + b"," + tb], [ta, tb], [tb, ta + b", " + tb], [ta + b" , ," + ta + b",", tb]][shape]
    ds = [[a, b], [a, b], [b, a, b], [a, a, b]][shape]
    r = send(inp, kind, lines)
    w = expect(kind, ds)
    w["CC_MISCAP"] = (2 if shape == 2 else 1) if upper else 0
    chk.eq(counts(r), want(**w), "Cache-Control notes", lines=lines)
    chk.eq([d for d, v in r.headers.parsed["cache-control"]], ds, "directives in order")


def many(inp, chk, kind, count):
    """Known directives among any number of extensions."""
    a = inp.choice("a", NAMES)
    b = inp.choice("b", ["max-age", "no-store", "private", "must-revalidate", "max-stale"])
    age = inp.bytes("age", 2, alphabet=D)
    ds = ["e" + str(i) for i in range(count)]
    place = inp.choice("place", range(3))
    i = [0, count // 2, count][place]
    ta = b"max-age=" + age if a == "max-age" else text(a)
    items = [x.encode() + b"=1" if len(x) % 2 else x.encode() for x in ds]
    items = items[:i] + [ta] + items[i:] + [text(b)]
    layout = inp.choice("layout", range(3))
    if layout == 0:
        lines = [b", ".join(items)]
    elif layout == 1:
        lines = items
    else:
        lines = [b",".join(items[:count // 3]), b",".join(items[count // 3:])]
    r = send(inp, kind, lines)
    chk.eq(counts(r), want(**expect(kind, [a, b])), "Cache-Control notes", directives=[a, b])
    chk.eq([d for d, v in r.headers.parsed["cache-control"]], ds[:i] + [a] + ds[i:] + [b], "directives in order")
    if a == "max-age":
        chk.eq(r.headers.parsed["cache-control"][i], (a, int(age)), "value of Cache-Control")
    chk.reach("many")


def checks(inp, chk):
    """Microsoft's pre-check and post-check."""
    a, b = inp.bytes("a", 2, alphabet=D), inp.bytes("b", 2, alphabet=D)
    k = inp.choice("k", range(4))
    lines = [[b"pre-check=" + a + b", post-check=" + b], [b"post-check=" + b, b"pre-check=" + a], [b"pre-check=" + a], [b"post-check=" + b]][k]
    r = send(inp, "response", lines)
    names = ["CHECK_SINGLE", "CHECK_ALL_ZERO", "CHECK_POST_BIGGER", "CHECK_POST_ZERO", "CHECK_POST_PRE"]
    pre, post = int(a), int(b)
    if k >= 2:
        w = "CHECK_SINGLE"
    elif pre == 0 and post == 0:
        w = "CHECK_ALL_ZERO"
    elif post > pre:
        w = "CHECK_POST_BIGGER"
    elif post == 0:
        w = "CHECK_POST_ZERO"
    else:
        w = "CHECK_POST_PRE"
    chk.eq([n for n in names if lib.has(r, n)], [w], "pre-check and post-check")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for name in NAMES:
        for kind in ("request", "response"):
            for n in (-1, 0, 1, 2) if not deep else (-1, 0, 1, 2, 3, 4):
                out.append({"func": "argument", "params": {"name": name, "n": n, "kind": kind}})
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4, 5):
        out.append({"func": "quoted", "params": {"name": "private", "n": n}})
        out.append({"func": "quoted", "params": {"name": "no-cache", "n": n}})
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4, 5):
        out.append({"func": "unknown", "params": {"n": n, "upper": False}})
        out.append({"func": "unknown", "params": {"n": n, "upper": True}})
    out += [{"func": "large", "params": {"name": n}} for n in ("max-age", "s-maxage", "stale-if-error")]
    out += [{"func": "conflicts", "params": {"kind": k}} for k in ("request", "response")]
    out += [{"func": "pairs", "params": {"kind": k, "second": s}} for k in ("request", "response") for s in NAMES]
    out.append({"func": "checks"})
    for kind in ("request", "response"):
        for count in (7, 40) if not deep else (3, 7, 15, 16, 31, 32, 40, 64, 100, 128, 256):
            out.append({"func": "many", "params": {"kind": kind, "count": count}})
    return out


BUDGET = {"quick": 60, "thorough": 500}
BOUNDS = {
    "quick": "each of the 18 known directives with no argument and with every token argument of 0-2 bytes, in requests and responses; quoted arguments of 1-3 arbitrary bytes; extension directives of every token of 1-3 bytes; every subset of 10 directives in two orders; every pair in 4 layouts and both letter cases; values 214748xxxx; two known directives among 7 or 40 extensions, on one line, two, or one each; pre-check/post-check of 0-99",
    "thorough": "as quick, arguments of up to 4 bytes, quoted arguments and extension directives of up to 5; up to 256 extensions",
}
OUTSIDE = "quoted numeric arguments; the value 2^31 itself; escapes in quoted arguments (F06)"
MUST_REACH = ["accepted", "rejected", "conflict", "many"]
