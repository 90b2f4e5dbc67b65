"""P05: what Content Security Policies allow is reported as browsers read them."""
from harness import fields, lib

NAMES = {"Content-Security-Policy": "", "Content-Security-Policy-Report-Only": " for reporting only"}
SCRIPTY = ["script-src", "style-src", "object-src"]


def lower(text):
    return text.lower()


def words(text):
    return [w for w in text.split(" ") if w != ""]


def policy(text):
    """(directives, names of duplicated directives) of one policy, with spaces for white space."""
    out, dups = [], []
    for d in text.split(";"):
        d = d.strip(" ")
        if d == "":
            continue
        i = d.index(" ") if " " in d else len(d)
        name, value = lower(d[:i]), d[i:].strip(" ")
        if name in [n for n, v in out]:
            dups.append(name)
        else:
            out.append([name, value])
    return out, dups


def listed(items):
    return "\n".join(["* `" + i + "`" for i in items])


def judge(policies, endpoints):
    """The notes a field with these policies gets: names and the directives they list."""
    notes = []
    inline, evals, http, wide, uri = [], [], [], [], False
    missing = []
    for text in policies:
        directives, dups = policy(text)
        if dups:
            notes.append(["CSP_DUPLICATE_DIRECTIVE", listed(dups)])
        for name, value in directives:
            sources = words(lower(value))
            if name == "report-uri":
                uri = True
            if name in SCRIPTY and "*" in sources:
                wide.append(name)
            if "'unsafe-inline'" in sources:
                inline.append(name)
            if "'unsafe-eval'" in sources:
                evals.append(name)
            if "http:" in sources:
                http.append(name)
            if name == "report-to" and value not in endpoints:
                missing.append(["CSP_REPORT_TO_MISSING", value])
    if uri:
        notes.append(["CSP_DEPRECATED_REPORT_URI", None])
    for name, ds in (("CSP_WIDE_OPEN", wide), ("CSP_UNSAFE_INLINE", inline), ("CSP_UNSAFE_EVAL", evals), ("CSP_HTTP_URI", http)):
        if ds:
            notes.append([name, listed(ds)])
    return notes + missing


def check(chk, sent, endpoints=(), order=False):
    """`sent`: (field name, policies)."""
    headers = [(n.encode(), ", ".join(p).encode()) for n, p in sent]
    if endpoints:
        headers.insert(0 if order else len(headers), (b"Reporting-Endpoints", ", ".join([e + '="https://example.com/"' for e in endpoints]).encode()))
    r = lib.response(headers)
    parents = [n for n in r.notes if type(n).__name__ == "CONTENT_SECURITY_POLICY"]
    chk.eq(len([n for n in lib.all_names(r) if n[:4] == "CSP_"]), sum([len(n.subnotes) for n in parents]), "what's reported is reported about a policy")
    chk.eq([n.vars["report_only"] for n in parents], [NAMES[n] for n, p in sent], "each field's policies are noticed, once")
    for i, (name, policies) in enumerate(sent):
        got = []
        for n in parents[i].subnotes:
            text = n.vars.get("directives_list")
            if type(n).__name__ == "CSP_REPORT_TO_MISSING":
                text = n.vars["endpoint"]
            got.append([type(n).__name__, None if text is None else str(text)])
        chk.eq(got, judge(policies, endpoints), "what the policy allows is reported about it, and nothing else")
        value = r.headers.parsed[lower(name)]
        chk.eq([[[k, v] for k, v in d.items()] for d in value], [policy(p)[0] for p in policies], "the directives are what was sent")
    chk.reach("policy")


TABLE = [
    "default-src 'self'", "script-src 'unsafe-inline'", "style-src *", "script-src 'unsafe-eval' 'self' http:", "SCRIPT-SRC 'UNSAFE-INLINE'",
    "default-src *", "img-src http://www.example.com/ https:", "script-src *.example.com", "object-src 'self' *", "report-uri /r",
    "report-to one", "report-to two", "script-src", "upgrade-insecure-requests", "style-src HTTP:", "script-src x'unsafe-inline'", "frame-src 'unsafe-eval'", "report-to ONE",
]


def several(inp, chk, layout, both, count):
    """Directives from a table: in one policy, in several, or in two fields."""
    ds = [inp.choice("d" + str(i), TABLE) for i in range(count)]
    name = inp.choice("name", sorted(NAMES))
    endpoints = inp.choice("endpoints", [(), ("one",), ("two", "one")])
    order = inp.bool("order")
    if both:
        other = [n for n in sorted(NAMES) if n != name][0]
        sent = [(name, ds[:1]), (other, ds[1:])]
    elif layout < 3:
        sent = [(name, [("; ", ";", " ;  ")[layout].join(ds) + ("", ";", " ; ;")[layout]])]
    else:
        sent = [(name, ds)]
    check(chk, sent, endpoints, order)
    if both:
        chk.reach("both")


def source(inp, chk, directive, n, before, after):
    """Any characters in a directive's value."""
    text = inp.text("w", n, alphabet="ht:/* 'u;-aE")
    inp.assume((before + text + after).strip(" ") != "")
    value = directive + " " + before + text + after
    for d in value.split(";"):
        d = d.strip(" ")
        inp.assume(d == "" or d[0].isalpha())  # others aren't directives
    check(chk, [("Content-Security-Policy", [value.strip(" ")])])
    chk.reach("source")


def many(inp, chk, what):
    """Many directives, sources or policies, those that are reported at any place among them."""
    n = inp.choice("count", [6, 13, 40])
    at = inp.choice("at", [0, n // 2, n])
    w = inp.text("w", 1, alphabet="abcXYZ019-")
    bad = ["script-src *", inp.choice("d", TABLE)]
    if what == "directives":
        ds = ["d" + w + str(i) + "-src 'self'" for i in range(n)]
        sent = ["; ".join(ds[:at] + bad + ds[at:])]
    elif what == "sources":
        ss = ["https://h" + w + str(i) + ".example" for i in range(n)]
        value = bad[1].split(" ")[1:]
        sent = [bad[0], "script-src " + " ".join(ss[:at] + value + ss[at:])]
    else:
        ps = ["d" + w + str(i) + "-src 'self'" for i in range(n)]
        sent = ps[:at] + bad + ps[at:]
    check(chk, [("Content-Security-Policy", sent)], ("one",))
    chk.reach("many-" + what)


def cased(inp, chk, keyword, directive):
    """Directives and sources in any letter case."""
    kw = fields.anycase(inp, keyword, "k").decode()
    name = fields.anycase(inp, directive, "d").decode() if len(keyword) < 6 else directive
    check(chk, [("Content-Security-Policy", [name + " " + kw])])
    chk.reach("cased")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for layout in (0, 1, 2, 3):
        out.append(dict(func="several", params=dict(layout=layout, both=False, count=2), weight=10))
        if deep:
            out.append(dict(func="several", params=dict(layout=layout, both=False, count=3), weight=100))
    out.append(dict(func="several", params=dict(layout=0, both=True, count=2), weight=10))
    for directive in ("script-src", "default-src", "report-to"):
        for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3):
            for before, after in (("", ""), ("'unsafe-inlin", "'"), ("'self", "'unsafe-eval'"), ("http", ""), ("", "*")):
                out.append(dict(func="source", params=dict(directive=directive, n=n, before=before, after=after), weight=3 ** n))
    for what in ("directives", "sources", "policies"):
        out.append(dict(func="many", params=dict(what=what), weight=30))
    for keyword in ("'unsafe-inline'", "'unsafe-eval'", "http:"):
        for directive in ("script-src", "x"):
            out.append(dict(func="cased", params=dict(keyword=keyword, directive=directive)))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["many-directives", "many-sources", "many-policies", "policy", "both", "source", "cased"]
BOUNDS = {
    "quick": "any two of 17 directives in either field (or one in each), in four layouts, with three sets of endpoints; up to 3 arbitrary characters (of 12) in 5 places of three directives; keywords and directives in any case; any of the directives among up to 40 others, sources or policies",
    "thorough": "three directives, and up to 5 arbitrary characters",
}
OUTSIDE = "whether a nonce or hash disables 'unsafe-inline'; endpoints of Report-To; values that don't have the syntax (F04); white space other than spaces"
ASSUMPTIONS = []
