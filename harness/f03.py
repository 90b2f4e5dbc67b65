"""F03: list-based fields are divided into the same members whatever their layout, and parsed into the members' values."""
from harness import lib
from harness.f04 import REQ, alphabet, send, skeleton
from harness.grammar import ELEMENT, members, valid

LISTS = [n for n in ELEMENT if ELEMENT[n][0] not in ("one", "line")]
SAME = """allow connection trailer upgrade expect access-control-allow-methods access-control-expose-headers if-match if-none-match via
www-authenticate proxy-authenticate authentication-info proxy-authentication-info""".split()
LOWER = """accept-ranges content-encoding access-control-allow-headers access-control-request-headers referrer-policy content-language pragma
x-content-type-options""".split()
MORE = {"pragma": ["a=b"], "access-control-allow-methods": ["X-y"], "x-content-type-options": ["NOSNIFF"], "vary": ["A"], "via": ["HTTP/1.0 h (a, b)"],
        "accept-ranges": ["x-A"], "upgrade": ["a"], "content-encoding": ["x-a"]}


def pool(name):
    out = []
    for v in skeleton(name):
        for m in members(v.decode("latin-1"), ELEMENT[name][0]):
            if valid(m, name) and m not in out:
                out.append(m)
    return out + MORE.get(name, [])


LAYOUTS = [["{a}, {b}"], ["{a}", "{b}"], [" \t{a} ,{b}\t,"], [",,{a}", "", "\t,{b} ,, "], [" {a},,{b} "]]


def parsed(name, lines):
    r = send(name, [l.encode("latin-1") for l in lines])
    return r, [plain(v) for v in r.headers.parsed.get(name, None) or []]


def plain(v):
    if type(v).__name__ == "AcceptValue":
        return [v.media_type, plain(v.parameters), v.q]
    if isinstance(v, tuple):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[k, plain(x)] for k, x in v.items()]
    return v


def notes(r):
    return sorted([n for n in lib.all_names(r) if n != "FIELD_DEPRECATED"])  # that one is for each line


def put(template, a, b):
    before, rest = template.split("{a}") if "{a}" in template else ("", template)
    out = before + a if "{a}" in template else ""
    if "{b}" in rest:
        x, y = rest.split("{b}")
        return out + x + b + y
    return out + rest


def check(chk, name, a, b, layout):
    lines = [put(t, a, b) for t in LAYOUTS[layout]]
    ra, va = parsed(name, [a])
    rb, vb = parsed(name, [b])
    r, v = parsed(name, lines)
    want = va + vb
    if name == "vary":
        want = sorted(list(set(want)))
        v = sorted(v)
    if name == "alt-svc" and "clear" in [a.lower(), b.lower()]:
        return  # it stands alone
    chk.eq(v, want, "the list has its members' values")
    if name in SAME:
        chk.eq(va, [a], "the member's text is its value")
    elif name in LOWER:
        chk.eq(va, [a.lower()], "the member's text in lower case is its value")
    elif name == "vary":
        chk.eq(list(va), [a.lower()], "the member's text in lower case is its value")
    if layout:
        base, bv = parsed(name, [put(t, a, b) for t in LAYOUTS[0]])
        chk.eq(sorted(v), sorted(bv), "the value doesn't depend on the layout") if name == "vary" else chk.eq(v, bv, "the value doesn't depend on the layout")
        chk.eq(notes(r), notes(base), "the notes don't depend on the layout")
        chk.reach("layout")
    if "," in a:
        chk.reach("comma in a member")


def edited(inp, chk, name, i, j, delete, insert):
    """Two members, one of them edited, in each of the layouts."""
    ms = pool(name)
    a, b = ms[i], ms[j]
    pos = inp.choice("pos", range(0, len(a) - delete + 1))
    w = inp.bytes("w", insert, alphabet=alphabet(name)).decode("latin-1") if insert else ""
    a = a[:pos] + w + a[pos + delete:]
    inp.assume(valid(a, name))
    inp.assume(members(a, ELEMENT[name][0]) == [a])
    first = inp.choice("first", [True, False])
    layout = inp.choice("layout", range(len(LAYOUTS)))
    if first:
        check(chk, name, a, b, layout)
    else:
        check(chk, name, b, a, layout)


def whole(inp, chk, name, n):
    """Any member of n bytes, before or after another one."""
    ms = pool(name)
    a = inp.bytes("a", n, alphabet=alphabet(name)).decode("latin-1")
    inp.assume(valid(a, name))
    inp.assume(members(a, ELEMENT[name][0]) == [a])
    layout = inp.choice("layout", range(len(LAYOUTS)))
    if inp.choice("first", [True, False]):
        check(chk, name, a, ms[0], layout)
    else:
        check(chk, name, ms[0], a, layout)


def many(inp, chk, name, n):
    """Many members, one of them edited, on one line, on one each, and on several."""
    ms = pool(name)
    if name == "alt-svc":
        ms = [m for m in ms if m.lower() != "clear"]
    w = inp.bytes("w", 1, alphabet=alphabet(name)).decode("latin-1")
    a = ms[0][:1] + w + ms[0][1:]
    inp.assume(valid(a, name))
    inp.assume(members(a, ELEMENT[name][0]) == [a])
    at = inp.choice("at", [0, n // 2, n - 1])
    # distinct members where the syntax allows it, so that the value has them all
    ts = [m[:1] + "q%d" % (i // len(ms)) + m[1:] for i in range(n) for m in [ms[i % len(ms)]]]
    ts = [t if valid(t, name) and members(t, ELEMENT[name][0]) == [t] else ms[i % len(ms)] for i, t in enumerate(ts)]
    ts[at] = a
    layout = inp.choice("layout", [0, 1, 2])
    if layout == 0:
        lines = [", ".join(ts)]
    elif layout == 1:
        lines = ts
    else:
        lines = [",".join(ts[i:i + 7]) + "," for i in range(0, n, 7)]
    want = []
    for t in ts:
        want += parsed(name, [t])[1]
    r, v = parsed(name, lines)
    if name == "vary":
        want = sorted(list(set(want)))
        v = sorted(v)
    chk.eq(v, want, "the list has all of its members' values, however many there are")
    chk.reach("many")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for name in LISTS:
        k = len(pool(name))
        for n in (5, 11, 33, 101) if deep else (6, 35):
            out.append({"func": "many", "params": {"name": name, "n": n}, "weight": n // 2})
        for n in (1, 2, 3) if deep else (2,):
            out.append({"func": "whole", "params": {"name": name, "n": n}, "weight": 1 + n})
        for i in range(k):
            for delete, insert in ((1, 1), (0, 1), (1, 0), (0, 2), (2, 2)) if deep else ((0, 1),):
                out.append({"func": "edited", "params": {"name": name, "i": i, "j": (i + 1) % k, "delete": delete, "insert": insert}, "weight": 3})
    return out


BUDGET = {"quick": 200, "thorough": 800}
BOUNDS = {
    "quick": "%d list-based fields: any member of 2 bytes, and each of 1-6 valid members with any byte inserted anywhere, next to another member; 5 layouts (one line or two, empty members, other whitespace); lists of 6 and 35 members, one of them with any byte inserted, in three layouts" % len(LISTS),
    "thorough": "members of 1-3 bytes; up to two bytes of the members replaced by up to two; lists of up to 101 members",
}
OUTSIDE = "members that aren't valid (F04), nested comments in Via, quotation marks in Content-Security-Policy, Alt-Svc with `clear` in a list"
MUST_REACH = ["many", "layout", "comma in a member"]
