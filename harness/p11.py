"""P11: framing, sniffing, referrer, resource and site data policies are judged as browsers apply them."""
from harness import fields, lib
from harness.p06 import lines


def lower(text):
    return text.lower()


def judged(r, prefixes):
    return sorted([n for n in lib.all_names(r) if any([n[:len(p)] == p for p in prefixes])])


# --- X-Frame-Options


def check_frame(chk, value):
    r = lib.response([(b"X-Frame-Options", value)])
    text = value.decode("ascii").strip(" \t").upper()
    chk.eq(judged(r, ["FRAME_OPTIONS_"]), ["FRAME_OPTIONS_" + text if text == "DENY" or text == "SAMEORIGIN" else "FRAME_OPTIONS_UNKNOWN"], "framing is judged by the whole value, in any case")
    chk.reach("frame-known" if text == "DENY" or text == "SAMEORIGIN" else "frame-unknown")


def frame(inp, chk, n, before, after):
    check_frame(chk, before.encode() + inp.bytes("t", n, alphabet="DENYdenySORsor -,;") + after.encode())


def frame_cased(inp, chk, name):
    check_frame(chk, fields.anycase(inp, name, "c"))


# --- X-Content-Type-Options


def sniffing(inp, chk, count, layout):
    items = lib.pick(inp, "i", ["nosniff", "NoSniff", "no-sniff", "nosniffs", "foo", "nosnif", "nosniff;a", "\"nosniff\""], count)
    r = lib.response([(b"X-Content-Type-Options", v) for v in lines(items, layout)])
    good = count and items[0].lower() == "nosniff"
    chk.eq(judged(r, ["CONTENT_TYPE_OPTIONS"]), ["CONTENT_TYPE_OPTIONS" if good else "CONTENT_TYPE_OPTIONS_UNKNOWN"], "sniffing is prevented by `nosniff` as the first value")
    chk.reach("nosniff" if good else "sniff")


def sniffing_text(inp, chk, n, cased):
    value = fields.anycase(inp, "nosniff", "c") if cased else b"no" + inp.bytes("t", n, alphabet="nosifSNF-; ") + b"ff"
    r = lib.response([(b"X-Content-Type-Options", value)])
    chk.eq(judged(r, ["CONTENT_TYPE_OPTIONS"]), ["CONTENT_TYPE_OPTIONS" if value.lower() == b"nosniff" else "CONTENT_TYPE_OPTIONS_UNKNOWN"], "`nosniff` is recognised in any case, and only it is")
    chk.reach("sniff-text")


# --- Referrer-Policy

POLICIES = ["no-referrer", "no-referrer-when-downgrade", "same-origin", "origin", "strict-origin", "origin-when-cross-origin", "strict-origin-when-cross-origin", "unsafe-url"]
STRICT = ["no-referrer", "same-origin", "strict-origin", "strict-origin-when-cross-origin"]


def check_referrer(chk, items, layout):
    r = lib.response([(b"Referrer-Policy", v) for v in lines(items, layout)])
    low = [i.lower() for i in items]
    known = [i for i in low if i in POLICIES]
    want = [["REFERRER_POLICY_UNKNOWN", i] for i in low if i not in POLICIES]
    if not known:
        want.append(["REFERRER_POLICY_EMPTY", None])
    else:
        last = known[-1]
        if len(known) > 1:
            want.append(["REFERRER_POLICY_MULTIPLE", last])
        if last == "unsafe-url":
            want.append(["REFERRER_POLICY_UNSAFE", None])
        elif last in STRICT:
            want.append(["REFERRER_POLICY_STRICT", last])
        chk.reach("policy")
    got = [[type(n).__name__, n.vars.get("policy", n.vars.get("effective"))] for n in lib.all_notes(r) if type(n).__name__[:15] == "REFERRER_POLICY"]
    chk.eq(sorted(got, key=str), sorted(want, key=str), "the last policy that's known applies; others are reported")


def referrer(inp, chk, count, layout):
    check_referrer(chk, lib.pick(inp, "i", POLICIES + ["Unsafe-URL", "SAME-ORIGIN", "foo", "strict", "no_referrer"], count), layout)


def referrer_text(inp, chk, base, at):
    """A policy with any character put, or replaced, in any place."""
    text = base[:at] + inp.text("t", 1, alphabet="aeginorstuNOR-_") + base[at + inp.choice("replaced", [0, 1]):]
    check_referrer(chk, ["origin", text], 0)


# --- Clear-Site-Data

DATA = ["cache", "cookies", "storage", "executionContexts", "*"]
VALUES = ['"' + d + '"' for d in DATA] + DATA + ['"foo"', "foo", '"Cache"', '""', '"cookies" ', "executioncontexts"]


def check_clear(chk, items, layout):
    r = lib.response([(b"Clear-Site-Data", v) for v in lines(items, layout)])
    clears, unquoted, want = [], [], []
    for i in items:
        i = i.strip(" ")
        quoted = len(i) > 1 and i[0] == '"' and i[-1] == '"'
        value = i[1:-1] if quoted else i
        if value == "":
            want.append(["CSD_EMPTY", None])
        elif value not in DATA:
            want.append(["CSD_UNKNOWN_VALUE", value])
        elif quoted:
            clears.append(value)
        else:
            unquoted.append(value)
    if unquoted:
        want.append(["CSD_UNQUOTED", ", ".join(unquoted)])
    if not items:
        want.append(["CSD_EMPTY", None])
    if clears:
        want.append(["CSD_PRESENT", ", ".join(["`" + c + "`" for c in clears])])
        chk.reach("clears")
    got = [[type(n).__name__, n.vars.get("value", n.vars.get("values"))] for n in lib.all_notes(r) if type(n).__name__[:4] == "CSD_"]
    chk.eq(sorted(got, key=str), sorted(want, key=str), "data that's cleared, and other values, are reported")
    chk.reach("clear")


def clear(inp, chk, count, layout):
    check_clear(chk, lib.pick(inp, "i", VALUES, count), layout)


def clear_quotes(inp, chk):
    """Quotes inside the quotes are part of a value."""
    a, b = inp.choice("a", ['"', '""', ""]), inp.choice("b", ['"', '""', ""])
    value = a + inp.choice("value", DATA) + b
    check_clear(chk, [value], 0)


def clear_text(inp, chk, n, before, after):
    text = before + inp.text("t", n, alphabet="cahesok*C_") + after
    check_clear(chk, ['"' + text + '"' if inp.bool("quoted") else text, '"storage"'], 0)


# --- Cross-Origin-Resource-Policy


def resource(inp, chk, base, at):
    text = base[:at] + inp.text("t", 1, alphabet="aceginorstuOS-_ ") + base[at + inp.choice("replaced", [0, 1]):] if at >= 0 else base
    r = lib.response([(b"Cross-Origin-Resource-Policy", text.encode())])
    value = text.strip(" ")
    known = value == "same-origin" or value == "same-site" or value == "cross-origin"
    want = "CORP_" + value.upper().replace("-", "_") if known else "CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE"
    chk.eq(judged(r, ["CORP_", "CROSS_ORIGIN_RESOURCE_POLICY"]), [want], "resource policies are judged by their whole value")
    if not known:
        chk.eq(lib.find(r, "CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE").vars["value"], value, "other values are named")
    chk.reach("corp" if known else "corp-unknown")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for n in (0, 1, 2, 3, 4, 5) if deep else (0, 1, 2, 3, 4):
        for before, after in (("", ""), ("DEN", ""), ("SAME", "GIN"), ("DE", "Y")):
            out.append(dict(func="frame", params=dict(n=n, before=before, after=after)))
    for name in ("DENY", "SAMEORIGIN"):
        out.append(dict(func="frame_cased", params=dict(name=name)))
    for layout in (0, 1, 2, 3):
        for count in ((1, 2, 3) if deep or not layout else (1, 2)) + ((17, 40) if layout in (0, 3) else ()):
            out.append(dict(func="sniffing", params=dict(count=count, layout=layout)))
            out.append(dict(func="clear", params=dict(count=count, layout=layout), weight=16 ** min(count, 3)))
            out.append(dict(func="referrer", params=dict(count=count, layout=layout), weight=13 ** min(count, 3)))
    out.append(dict(func="sniffing_text", params=dict(n=0, cased=True)))
    for n in (0, 1, 2, 3, 4, 5):
        out.append(dict(func="sniffing_text", params=dict(n=n, cased=False)))
    for base in POLICIES:
        for at in range(len(base) + 1):
            out.append(dict(func="referrer_text", params=dict(base=base, at=at), weight=4))
    out.append(dict(func="clear", params=dict(count=0, layout=0)))
    out.append(dict(func="clear_quotes", params={}))
    for before, after in (("c", ""), ("", "kies"), ("ca", "he"), ("", "")):
        for n in (1, 2, 3, 4) if deep else (1, 2, 3):
            out.append(dict(func="clear_text", params=dict(n=n, before=before, after=after)))
    for base in ("same-origin", "same-site", "cross-origin"):
        for at in range(-1, len(base) + 1):
            out.append(dict(func="resource", params=dict(base=base, at=at)))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["frame-known", "frame-unknown", "nosniff", "sniff", "sniff-text", "policy", "clear", "clears", "corp", "corp-unknown"]
BOUNDS = {
    "quick": "up to 4 arbitrary characters (of 18) in 4 places of X-Frame-Options; the known values in any case; any three of 8 values of X-Content-Type-Options, 13 of Referrer-Policy, and 16 of Clear-Site-Data, and two in three more layouts, and 17 and 40 of them; one arbitrary character put or replaced at every place of each referrer and resource policy; 5 in `nosniff`, and 3 in 4 places of Clear-Site-Data",
    "thorough": "five characters in X-Frame-Options, four in Clear-Site-Data, and three of each list's values in every layout",
}
OUTSIDE = "repeated X-Frame-Options and Cross-Origin-Resource-Policy, of which httplint takes the last; empty members of lists (F03); ALLOW-FROM, which httplint takes as unknown"
ASSUMPTIONS = []
