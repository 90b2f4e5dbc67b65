"""P06: negotiation fields (Vary, Accept, Accept-Language, Content-Language, Accept-CH) have the values they denote."""
import re

from harness import fields, lib

# --- Vary, Content-Language

NAMES = ["accept", "user-agent", "host", "negotiate", "*", "foo", "Accept", "USER-AGENT", "Foo"]


def unique(items):
    out = []
    for i in items:
        if i not in out:
            out.append(i)
    return out


def lines(items, layout):
    """A list in one of several layouts."""
    if layout == 3:
        return [i.encode() for i in items]
    return [("," if layout == 1 else ", " if layout == 0 else " ,, ").join(items).encode()]


def check_vary(chk, items, layout):
    r = lib.response([(b"Vary", v) for v in lines(items, layout)])
    values = unique([i.lower() for i in items])
    chk.eq(r.headers.parsed["vary"], values, "the fields that vary, each once")
    want = []
    if len(values) < len(items):
        want.append("VARY_DUPLICATE")
    if len(values) > 3:
        want.append("VARY_COMPLEX")
    for name, note in (("*", "VARY_ASTERISK"), ("user-agent", "VARY_USER_AGENT"), ("host", "VARY_HOST"), ("negotiate", "VARY_NEGOTIATE")):
        if name in values:
            want.append(note)
    chk.eq(sorted([n for n in lib.all_names(r) if n[:5] == "VARY_"]), sorted(want), "what's varied on is judged")
    chk.reach("vary")


def vary(inp, chk, count, layout):
    check_vary(chk, [inp.choice("n" + str(i), NAMES) for i in range(count)], layout)


def many(inp, chk, field):
    """Many members, one of which is any other or has any letter."""
    n = inp.choice("count", [5, 9, 33, 70])
    at = inp.choice("at", [0, n // 2, n - 1])
    layout = inp.choice("layout", [0, 1, 2, 3])
    w = inp.text("w", 1, alphabet="abXYZ019")
    if field == "vary":
        items = ["x-f" + str(i) for i in range(n)]
        items[at] = inp.choice("n", ["x-f" + w, "user-agent", "*"])
        check_vary(chk, items, layout)
    else:
        items = [("text/t" if field == "accept" else "l") + str(i) for i in range(n)]
        items[at] = items[at][:-1] + w
        q = inp.choice("q", ["0", "0.25", "1"])
        r = lib.request([(field.encode(), v) for v in lines([x + (";q=" + q if i == at else "") for i, x in enumerate(items)], layout)])
        got = [[g.media_type if field == "accept" else g.language, g.q] for g in r.headers.parsed[field]]
        base = lib.request([(field.encode(), items[0].encode())]).headers.parsed[field][0].q
        chk.eq([g[0] for g in got], [x.lower() for x in items], "every member, however many there are")
        chk.eq([g[1] for g in got], [float(q) if i == at else base for i in range(n)], "and its weight")
    chk.reach("many-" + field)


def varies(inp, chk, sizes, layout):
    """Any names."""
    items = [inp.text("n" + str(i), n, alphabet="aAhost*HOST-") for i, n in enumerate(sizes)]
    check_vary(chk, items, layout)


def language(inp, chk, sizes, layout):
    items = [inp.text("n" + str(i), n, alphabet="aAbB") for i, n in enumerate(sizes)]
    r = lib.response([(b"Content-Language", v) for v in lines(items, layout)])
    low = [i.lower() for i in items]
    chk.eq(r.headers.parsed["content-language"], low, "languages")
    dup = unique([low[i] for i in range(len(low)) if low[i] in low[:i]])
    chk.eq([n.vars["lang"] for n in r.notes if type(n).__name__ == "CONTENT_LANGUAGE_DUP"], dup, "repeated languages are reported, once each")
    chk.reach("language")


# --- weights

QVALUE = re.compile(r"0(\.[0-9]{0,3})?$|1(\.0{0,3})?$", re.ASCII)


def weight(inp, chk, field, n, before, name, alphabet):
    """Any q value, in any place of a list."""
    q = inp.text("q", n, alphabet=alphabet)
    item = {"accept": "text/Html", "accept-language": "en-GB"}[field]
    layout = inp.choice("layout", [";q=", "; Q=", " ; q="])
    value = before + item + (";a=1" if name == "param" else "") + layout + q
    r = lib.request([(field.encode(), value.encode())])
    got = r.headers.parsed[field]
    chk.eq(len(got), 2 if before else 1, "each member has a value")
    good = QVALUE.match(q)
    chk.eq(lib.count(r, "BAD_Q_VALUE"), 0 if good else 1, "q values that aren't valid, and no others, are reported")
    g = got[-1]
    if good:
        chk(g.q is not None, "valid q values have a value")
        chk(g.q == float(q), "q values are what was sent")
        chk.reach("good-" + field)
    else:
        chk(g.q is None, "q values that aren't valid have no value")
        chk.reach("bad-" + field)
    if field == "accept":
        chk.eq([g.media_type, [[k, v] for k, v in g.parameters.items()]], ["text/html", [["a", "1"]] if name == "param" else []], "media ranges and their parameters")
    else:
        chk.eq(g.language, "en-gb", "languages")
        chk.eq(lib.count(r, "ACCEPT_LANGUAGE_BAD_SYNTAX"), 1 if name == "param" else 0, "parameters other than q are reported")


def range_(inp, chk, n, before, after):
    """Any media range."""
    text = before + inp.text("m", n, alphabet="a*/B.") + after
    r = lib.request([(b"Accept", text.encode() + b";q=0.5")])
    m = re.fullmatch(r"(\*/\*|[aBxte.]+/\*|[aBxte.*]+/[aBxte.*]+)", text)
    inp.assume(m is None or "*" not in text or text == "*/*" or text[-2:] == "/*" and "*" not in text[:-2])
    chk.eq(lib.count(r, "ACCEPT_BAD_SYNTAX"), 1 if m is None else 0, "what isn't a media range is reported")
    if m is not None:
        got = r.headers.parsed["accept"]
        chk.eq([[v.media_type, len(v.parameters)] for v in got], [[text.lower(), 0]], "media ranges")
        chk(got[0].q == 0.5, "their weight")
        chk.reach("range")
    else:
        chk.reach("bad-range")


# --- client hints


def hints(inp, chk, count):
    """Accept-CH, the Vary that goes with it, and how it was requested."""
    hs = [inp.choice("h" + str(i), ["DPR", "dpr", "Width", "?1", "\"Width\"", "(DPR)", "5"]) for i in range(count)]
    v = inp.choice("vary", [None, "DPR", "width, dpr", "foo"])
    target = inp.choice("uri", [None, b"http://example.com/", b"HTTP://example.com/", b"https://example.com/"])
    store = inp.bool("store")
    req = None
    if target is not None:
        req = lib.request([], uri=target)
    headers = [(b"Accept-CH", ", ".join(hs).encode()), (b"Cache-Control", b"max-age=60" if store else b"no-store")]
    if v is not None:
        headers.append((b"Vary", v.encode()))
    r = lib.response(headers, req=req)
    tokens = [h for h in hs if h[0].isalpha()]
    chk.eq(lib.count(r, "ACCEPT_CH_BAD_TYPE"), 1 if len(tokens) < len(hs) else 0, "hints that aren't tokens are reported")
    chk.eq(lib.count(r, "ACCEPT_CH_IN_PLAIN_HTTP"), 1 if target is not None and target[:5].lower() == b"http:" else 0, "hints over plain HTTP are reported")
    missing = [h for h in tokens if v is None or h.lower() not in v.lower().split(", ")]
    chk.eq(lib.count(r, "ACCEPT_CH_MISSING_VARY"), 1 if missing and store else 0, "hints that stored responses don't vary on are reported")
    if missing and store:
        chk.eq(lib.find(r, "ACCEPT_CH_MISSING_VARY").vars["missing_fields"], ", ".join(missing), "and listed")
        chk.reach("missing")
    chk.reach("hints")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for layout in range(4):
        for count in (1, 2, 3, 4) if deep else (1, 2, 3):
            out.append(dict(func="vary", params=dict(count=count, layout=layout), weight=9 ** (count - 1)))
        for sizes in ([1, 1], [4, 4], [1, 1, 1], [1, 1, 1, 1], [4], [3, 4, 3]) + (([1, 1, 1, 1, 1], [4, 4, 4]) if deep else ()):
            out.append(dict(func="varies", params=dict(sizes=sizes, layout=layout), weight=20))
        for sizes in ([1, 1], [1, 1, 1], [2, 2, 2]) + (([1, 1, 1, 1], [2, 2, 2, 2]) if deep else ()):
            out.append(dict(func="language", params=dict(sizes=sizes, layout=layout), weight=10))
    for field in ("vary", "accept", "accept-language"):
        out.append(dict(func="many", params=dict(field=field), weight=20))
    for field in ("accept", "accept-language"):
        for name in ("", "param"):
            for before in ("", {"accept": "a/b;q=0.1, ", "accept-language": "fr;q=0.1, "}[field]):
                for n in range(1, 8 if deep else 7):
                    out.append(dict(func="weight", params=dict(field=field, n=n, before=before, name=name, alphabet="0123456789.-+xe"), weight=n))
    for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4):
        for before, after in (("", ""), ("text", ""), ("", "/x"), ("*", "")):
            out.append(dict(func="range_", params=dict(n=n, before=before, after=after), weight=2 ** n))
    for count in (1, 2, 3) if deep else (1, 2):
        out.append(dict(func="hints", params=dict(count=count), weight=8 ** count))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["many-vary", "many-accept", "many-accept-language", "vary", "language", "good-accept", "bad-accept", "good-accept-language", "bad-accept-language", "range", "bad-range", "missing", "hints"]
BOUNDS = {
    "quick": "up to 3 of 9 names, or 4 of up to 4 arbitrary characters, in Vary, in four layouts; up to 3 languages; q values of up to 6 characters (of 15) in Accept and Accept-Language; up to 4 arbitrary characters in a media range; any two of 7 client hints, with Vary, request target and storability from tables; up to 70 members of Vary, Accept and Accept-Language",
    "thorough": "4 names, 5 of arbitrary characters, 4 languages, 7 characters, 3 hints",
}
OUTSIDE = "weights in Accept-Encoding and TE (F04 judges their syntax); media ranges whose types contain `*`, which httplint takes as types"
ASSUMPTIONS = []
