"""P08: what Structured and JSON fields say is reported for what it is: isolation policies, reporting, deprecation, caches' and proxies' statuses."""
import re

from harness import lib, sf
from harness.f04 import ODD

PRINT = [c for c in range(0x21, 0x7f)]
# every kind of bare item, by name
KINDS = {"token": "tok", "string": '"s"', "integer": "5", "decimal": "1.5", "true": None, "false": "?0", "bytes": ":YQ==:", "date": "@5", "inner": '("a" b)', "strings": '("a" "b")', "empty": "()"}
BARE = ["token", "string", "integer", "decimal", "true", "false", "bytes", "date"]


def notes(r, prefixes):
    return sorted([n for n in lib.all_names(r) if any([n.startswith(p) for p in prefixes])])


def param(key, kind):
    return key if KINDS[kind] is None else key + "=" + KINDS[kind]


def edited(inp, v, delete, insert):
    pos = inp.choice("pos", range(0, len(v) - delete + 1))
    w = inp.bytes("w", insert, alphabet=PRINT).decode("latin-1") if insert else ""
    return v[:pos] + w + v[pos + delete:]


POLICIES = {
    "cross-origin-embedder-policy": {"require-corp": "COEP_REQUIRE_CORP", "credentialless": "COEP_CREDENTIALLESS", "unsafe-none": "COEP_UNSAFE_NONE"},
    "cross-origin-opener-policy": {"same-origin": "COOP_SAME_ORIGIN", "same-origin-allow-popups": "COOP_SAME_ORIGIN_ALLOW_POPUPS", "unsafe-none": "COOP_UNSAFE_NONE"},
}


def isolation(inp, chk, field, delete, insert):
    """Cross-origin policies: any small edit of the known ones."""
    known = POLICIES[field]
    quote = inp.choice("quote", ["", '"'])
    v = quote + edited(inp, inp.choice("v", list(known)), delete, insert) + quote
    inp.assume("%" != v[:1] and ":" != v[:1] and "@" != v[:1] and sf.valid(v, "item"))
    only = inp.choice("only", ["", "-report-only"])
    r = lib.response([((field + only).encode(), v.encode())])
    main = v.split(";")[0]
    bad = "CROSS_ORIGIN_EMBEDDER_POLICY_BAD_VALUE" if "embedder" in field else "CROSS_ORIGIN_OPENER_POLICY_BAD_VALUE"
    want = [bad]
    for k in known:
        if main == k:
            want = [known[k]]
            chk.reach("known policy")
    chk.eq(notes(r, ["COEP_", "COOP_", "CROSS_ORIGIN_"]), want, "the policy is reported for what it is")


def endpoint(inp, chk, field):
    """Policies' report-to: any name, against defined endpoints."""
    name = inp.bytes("name", 1, alphabet=b"abc-").decode() + inp.bytes("name2", 1, alphabet=b"ab*d").decode()
    quoted = inp.choice("quoted", [True, False])
    inp.assume(quoted or name[0] != "-")
    defined = inp.choice("defined", [None, "ab", "ab, bd"])
    value = "unsafe-none;report-to=" + ('"' + name + '"' if quoted else name)
    headers = [(field.encode(), value.encode())]
    if defined is not None:
        headers.append((b"Reporting-Endpoints", ", ".join([d + '="/x"' for d in defined.split(", ")]).encode()))
    r = lib.response(headers)
    missing = defined is None or (name not in defined.split(", "))
    n = "COEP_REPORT_TO_MISSING" if "embedder" in field else "COOP_REPORT_TO_MISSING"
    chk.eq(lib.count(r, n), 1 if missing else 0, "endpoints that aren't defined are reported")
    if not missing:
        chk.reach("defined endpoint")
    r = lib.response([(field.encode(), b"unsafe-none;x=y")])
    chk.eq(lib.count(r, n), 0, "no endpoint, no note")


def deprecation(inp, chk):
    """Deprecation dates against any time of receipt; other types."""
    kind = inp.choice("kind", BARE)
    when = inp.choice("when", [0, 5, 1688169599, -3, 99999999999])
    start = inp.int("start", 1, 2**37)
    v = "@%d" % when if kind == "date" else ("?1" if kind == "true" else KINDS[kind])
    r = lib.response([(b"Deprecation", v.encode())], start_time=start)
    if kind == "date":
        want = "DEPRECATION_FUTURE" if when > start else "DEPRECATION_PAST"
    else:
        want = "DEPRECATION_TRUE" if kind == "true" else "DEPRECATION_BAD_TYPE"
    chk.eq(notes(r, ["DEPRECATION_"]), [want], "past, future and badly typed deprecations")
    chk.reach(want)


NONE = "immutable must-revalidate must-understand no-store no-transform only-if-cached proxy-revalidate public".split()
NUMBER = "max-age s-maxage stale-if-error stale-while-revalidate min-fresh pre-check post-check".split()
LIST = ["no-cache", "private"]


def cdn(inp, chk, delete, insert):
    """CDN-Cache-Control: directives (and small edits of them) with every kind of value."""
    d = edited(inp, inp.choice("d", NONE + NUMBER + LIST), delete, insert)
    inp.assume(re.fullmatch(sf.KEY, d) is not None)
    kind = inp.choice("kind", list(KINDS))
    r = lib.response([(b"CDN-Cache-Control", param(d, kind).encode())])
    bad = False
    for x in NONE:
        if d == x:
            bad = kind != "true"
    for x in NUMBER:
        if d == x:
            bad = kind != "integer"
    for x in LIST:
        if d == x:
            bad = kind not in ("true", "string")
    chk.eq(lib.count(r, "BAD_CDN_CC_TYPE"), 1 if bad else 0, "directives with another type than theirs are reported")
    chk.eq(lib.count(r, "CDN_CACHE_CONTROL_PRESENT"), 1, "the field is reported")
    if bad:
        chk.eq(lib.find(r, "BAD_CDN_CC_TYPE").vars["bad_directive"], d, "and named")
        chk.reach("bad type")


CACHE = {"hit": ["true", "false"], "fwd": [], "fwd-status": ["integer"], "ttl": ["integer"], "stored": ["true", "false"], "collapsed": ["true", "false"], "key": ["string"], "detail": ["string", "token"]}
PROXY = {"error": ["token"], "next-hop": ["string", "token"], "next-protocol": ["token", "bytes"], "received-status": ["integer"], "details": ["string", "token"]}


def status(inp, chk, field, delete, insert):
    """Cache-Status and Proxy-Status: parameters (and small edits of their names) with every kind of value."""
    known = CACHE if field == "Cache-Status" else PROXY
    prefix = "CACHE_STATUS" if field == "Cache-Status" else "PROXY_STATUS"
    p = edited(inp, inp.choice("p", list(known)), delete, insert)
    inp.assume(re.fullmatch(sf.KEY, p) is not None)
    kind = inp.choice("kind", BARE)
    r = lib.response([(field.encode(), ("A b".replace(" ", "-") + ";" + param(p, kind)).encode())])
    want = [prefix, prefix + "_UNKNOWN_PARAM"]
    for k in known:
        if p == k:
            want = [prefix] if kind in known[k] else [prefix, prefix + "_BAD_PARAM_VAL"]
    chk.eq(notes(r, [prefix]), want, "unknown parameters and parameters of another type are reported")
    for n in want[1:]:
        chk.eq(lib.find(r, n).vars["param"], p, "and named")
        chk.reach(n)


FWD = "bypass method uri-miss vary-miss miss request stale partial".split()


def forwarded(inp, chk, delete, insert):
    """Cache-Status: reasons for forwarding."""
    v = edited(inp, inp.choice("v", FWD), delete, insert)
    inp.assume(re.fullmatch(sf.TOKEN, v) is not None)
    r = lib.response([(b"Cache-Status", b"A;fwd=" + v.encode())])
    chk.eq(lib.count(r, "CACHE_STATUS_BAD_PARAM_VAL"), 0 if v in FWD else 1, "unknown reasons are reported")


URLS = ["https://a.b/c", "http://a.b/c", "wss://a", "/d", "//e.f/g", "data:x"]


def endpoints(inp, chk, field, delete, insert):
    """URLs in Reporting-Endpoints and Speculation-Rules."""
    u = edited(inp, inp.choice("u", URLS), delete, insert)
    inp.assume(re.fullmatch(r"(?:[A-Za-z][A-Za-z0-9+.-]*:|(?=[^:]*$|[^:]*/))[A-Za-z0-9.:/_~-]*", u) is not None)
    base = inp.choice("base", ["https://h.i/j", "http://h.i/j"])
    name, value = ("Reporting-Endpoints", 'n="' + u + '"') if field == "r" else ("Speculation-Rules", '"' + u + '"')
    r = lib.response([(name.encode(), value.encode())], base_uri=base)
    m = re.match("[A-Za-z][A-Za-z0-9+.-]*(?=:)", u)
    scheme = m.group(0).lower() if m is not None else base.split(":")[0]
    secure = scheme == "https" or scheme == "wss"
    n = "ENDPOINT_NOT_SECURE" if field == "r" else "SPECULATION_RULE_NOT_SECURE"
    chk.eq(lib.count(r, n), 0 if secure else 1, "insecure URLs are reported")
    chk.reach("secure" if secure else "insecure")


TYPES = {
    "Reporting-Endpoints": ("n", ["string"], "BAD_REPORTING_ENDPOINT_SYNTAX"), "Speculation-Rules": (None, ["string"], "SPECULATION_RULES_BAD_TYPE"),
    "Cache-Groups": (None, ["string"], "CACHE_GROUPS_BAD_TYPE"), "Cache-Group-Invalidation": (None, ["string"], "CACHE_GROUP_INVALIDATION_BAD_TYPE"),
    "Accept-CH": (None, ["token"], "ACCEPT_CH_BAD_TYPE"), "Accept-Query": (None, ["token", "string"], "ACCEPT_QUERY_BAD_TYPE"),
    "Permissions-Policy": ("camera", ["inner", "strings", "empty"], "PERMISSIONS_POLICY_INVALID_VALUE"),
}
DICTIONARY = {"match": ["string"], "id": ["string"], "type": ["token"], "ttl": ["integer"], "match-dest": ["string", "strings", "empty"]}


def types(inp, chk, field):
    """Members of each kind, next to one of the right kind."""
    key, right, note = TYPES[field]
    kind = inp.choice("kind", list(KINDS) if key is not None or field in ("Cache-Groups", "Cache-Group-Invalidation") else BARE)
    v = (param(key, kind) if key is not None else ("?1" if kind == "true" else KINDS[kind]))
    good = KINDS[right[0]] if key is None else "zz=" + KINDS[right[0]]
    v = inp.choice("order", [v, v + ", " + good, good + ", " + v])
    r = lib.response([(field.encode(), v.encode())], base_uri="https://a/b")
    chk.eq(len([n for n in lib.all_names(r) if n == note]), 0 if kind in right else 1, "members of another type are reported")
    chk.reach("right type" if kind in right else "wrong type")


def dictionary(inp, chk, delete, insert):
    """Use-As-Dictionary: parameters (and small edits of their names) with every kind of value."""
    p = edited(inp, inp.choice("p", list(DICTIONARY)), delete, insert)
    inp.assume(re.fullmatch(sf.KEY, p) is not None)
    kind = inp.choice("kind", list(KINDS))
    r = lib.response([(b"Use-As-Dictionary", param(p, kind).encode())])
    want = []
    for k in DICTIONARY:
        if p == k and kind not in DICTIONARY[k]:
            want = ["USE_AS_DICTIONARY_BAD_MATCH_DEST" if k == "match-dest" else "USE_AS_DICTIONARY_BAD_TYPE"]
    chk.eq(notes(r, ["USE_AS"]), want, "members of another type are reported")
    if want == ["USE_AS_DICTIONARY_BAD_TYPE"]:
        chk.eq(lib.find(r, want[0]).vars["param"], p, "and named")


SENSITIVE = "camera microphone geolocation payment usb serial magnetometer accelerometer gyroscope screen-wake-lock".split()


def permissions(inp, chk, delete, insert):
    """Permissions-Policy: features (and small edits of them) with every kind of allowlist."""
    f = edited(inp, inp.choice("f", SENSITIVE[:5] + ["fullscreen"]), delete, insert)
    inp.assume(re.fullmatch(sf.KEY, f) is not None)
    value, want = inp.choice("value", [
        ("*", []), ("()", []), ("(self)", []), ('(self "https://a.b")', []), ("(src)", []), ('("self")', ["PERMISSIONS_POLICY_QUOTED_KEYWORD"]),
        ('("none" foo)', ["PERMISSIONS_POLICY_QUOTED_KEYWORD", "PERMISSIONS_POLICY_UNKNOWN_TOKEN"]), ("(1 2.5)", ["PERMISSIONS_POLICY_INVALID_ITEM_TYPE"] * 2), ("(:YQ==: self)", ["PERMISSIONS_POLICY_INVALID_ITEM_TYPE"]), ("(?0)", ["PERMISSIONS_POLICY_INVALID_ITEM_TYPE"]), (":YQ==:", ["PERMISSIONS_POLICY_INVALID_VALUE"]), ("5", ["PERMISSIONS_POLICY_INVALID_VALUE"]),
        ("?0", ["PERMISSIONS_POLICY_INVALID_VALUE"]), ('"*"', ["PERMISSIONS_POLICY_INVALID_VALUE"]), ("foo", ["PERMISSIONS_POLICY_INVALID_VALUE"]),
        ('("*" ?1)', ["PERMISSIONS_POLICY_INVALID_ITEM_TYPE", "PERMISSIONS_POLICY_QUOTED_KEYWORD"])])
    r = lib.response([(b"Permissions-Policy", (f + "=" + value).encode())])
    want = ["PERMISSIONS_POLICY_PRESENT"] + want
    if value == "*" and f in SENSITIVE:
        want.append("PERMISSIONS_POLICY_WILDCARD")
        chk.reach("wildcard")
    chk.eq(notes(r, ["PERMISSIONS_POLICY"]), sorted(want), "allowlists are reported for what they are")


def groups(inp, chk, delete, insert):
    """Cache-Group-Invalidation: only after unsafe methods."""
    m = edited(inp, inp.choice("m", ["GET", "HEAD", "OPTIONS", "TRACE", "POST"]), delete, insert)
    inp.assume(re.fullmatch("[!#$%&'*+.^_`|~0-9A-Za-z-]+", m) is not None)
    req = lib.request([], method=m.encode())
    r = lib.response([(b"Cache-Group-Invalidation", b'"a"')], req=req)
    safe = m in ("GET", "HEAD", "OPTIONS", "TRACE")
    chk.eq(lib.count(r, "CACHE_GROUP_INVALIDATION_IGNORED"), 1 if safe else 0, "invalidation by safe methods is ignored")
    chk.reach("safe" if safe else "unsafe")


def available(inp, chk, delete, insert):
    """Available-Dictionary: its type, and the codings that need it."""
    kind = inp.choice("kind", BARE)
    c = edited(inp, inp.choice("c", ["dcb", "dcz", "gzip"]), delete, insert)
    inp.assume(re.fullmatch("[!#$%&'*+.^_`|~0-9A-Za-z-]+", c) is not None)
    r = lib.request([(b"Available-Dictionary", ("?1" if kind == "true" else KINDS[kind]).encode()), (b"Accept-Encoding", ("gzip, " + c).encode())])
    want = [] if kind == "bytes" else ["AVAILABLE_DICTIONARY_BAD_TYPE"]
    if c.lower() not in ("dcb", "dcz"):
        want.append("AVAILABLE_DICTIONARY_MISSING_AE")
    chk.eq(notes(r, ["AVAILABLE_DICTIONARY"]), want, "dictionaries are byte sequences, and need a coding")


JSON = {"string": '"s"', "integer": "5", "float": "0.5", "true": "true", "null": "null", "object": "{}", "list": "[]"}


def report_to(inp, chk):
    """Report-To: members missing or of any type."""
    age = inp.choice("age", [None] + list(JSON))
    ends = inp.choice("ends", [None] + list(JSON) + ["one"])
    url = inp.choice("url", [None] + list(JSON)) if ends == "one" else None
    second = inp.choice("second", [True, False])
    parts = []
    want = []
    if age is None:
        want.append("REPORT_TO_MISSING_KEY")
    else:
        parts.append('"max_age": ' + JSON[age])
        if age != "integer":
            want.append("REPORT_TO_BAD_TYPE")
    if ends == "one":
        parts.append('"endpoints": [{' + ("" if url is None else '"url": ' + JSON[url]) + "}]")
        if url is None:
            want.append("REPORT_TO_MISSING_KEY")
        elif url != "string":
            want.append("REPORT_TO_BAD_TYPE")
    elif ends is None:
        want.append("REPORT_TO_MISSING_KEY")
    else:
        parts.append('"endpoints": ' + JSON[ends])
        if ends != "list":
            want.append("REPORT_TO_BAD_TYPE")
    lines = [(b"Report-To", ("{" + ", ".join(parts) + "}").encode())]
    if second:
        lines.append((b"Report-To", b"5"))
        want.append("REPORT_TO_BAD_STRUCTURE")
    r = lib.response(lines)
    chk.eq(notes(r, ["REPORT_TO_"]), sorted(want), "missing and badly typed members are reported")


def fraction(text):
    return re.fullmatch(r"0(?:\.[0-9]+)?|1(?:\.0+)?", text) is not None


def nel(inp, chk, n):
    """NEL: members missing or of any type, fractions, and endpoints."""
    what = inp.choice("what", ["report_to", "max_age", "include_subdomains", "success_fraction", "failure_fraction"])
    parts = {"report_to": '"ab"', "max_age": "5"}
    want = []
    clean = True
    kind = inp.choice("kind", [None] + list(JSON) + (["digits"] if "fraction" in what else []))
    if kind is None:
        parts.pop(what, None)
        if what in ("report_to", "max_age"):
            want.append("NEL_MISSING_KEY")
            clean = False
    elif kind == "digits":
        text = inp.bytes("d", n, alphabet=b"0123456789.").decode()
        inp.assume(re.fullmatch(r"(?:0|[1-9][0-9]*)(?:\.[0-9]+)?", text) is not None)
        sign = inp.choice("sign", ["", "-"])
        inp.assume(sign == "" or re.search("[1-9]", text) is not None)
        parts[what] = sign + text
        if sign == "-" or not fraction(text):
            want.append("NEL_BAD_VALUE")
            clean = False
        else:
            chk.reach("fraction")
    else:
        parts[what] = JSON[kind]
        right = {"report_to": ["string"], "max_age": ["integer"], "include_subdomains": ["true"]}.get(what, ["integer", "float"])
        if kind not in right:
            want.append("NEL_BAD_TYPE")
            clean = False
        elif "fraction" in what and kind == "integer":
            want.append("NEL_BAD_VALUE")  # 5
            clean = False
    if "report_to" in parts:
        if parts["report_to"] == '"s"':
            parts["report_to"] = '"' + inp.bytes("e", 2, alphabet=b"abc").decode() + '"'
    name = parts["report_to"][1:-1] if "report_to" in parts and parts["report_to"][0] == '"' else None
    defined = inp.choice("defined", [None, 'ab="/x"', 'ab="http://x/", ca="https://y"', "ab=1"])
    headers = [(b"NEL", ("{" + ", ".join(['"' + k + '": ' + v for k, v in parts.items()]) + "}").encode())]
    if defined is not None:
        headers.append((b"Reporting-Endpoints", defined.encode()))
    r = lib.response(headers, base_uri="https://h.i/j")
    if name is not None and clean is not None:
        known = [] if defined is None else (["ab", "ca"] if "ca=" in defined else ["ab"])
        usable = {None: [], 'ab="/x"': ["ab"], 'ab="http://x/", ca="https://y"': ["ca"], "ab=1": []}[defined]
        if name not in known:
            want.append("NEL_REPORT_TO_MISSING")
        elif name in usable and clean:
            want.append("NEL_CONFIGURED")
            chk.reach("configured")
    chk.eq(notes(r, ["NEL_"]), sorted(want), "policies are reported for what they are")
    for k in ("NEL_MISSING_KEY", "NEL_BAD_TYPE", "NEL_BAD_VALUE"):
        if k in want:
            chk.eq(lib.find(r, k).vars["key"], what, "and the member is named")


POLICY = {  # what a policy gets on its own, and the endpoint it configures or lacks
    '{"report_to": "ab", "max_age": 1}': ([], "ab"),
    '{"report_to": "zz", "max_age": 0}': ([], "zz"),
    '{"report_to": "ab"}': (["NEL_MISSING_KEY"], None),
    '{"report_to": "cd", "max_age": 2, "success_fraction": 2}': (["NEL_BAD_VALUE"], None),
    '{"report_to": "cd", "max_age": 3, "failure_fraction": 1.0}': ([], "cd"),
    '{"report_to": 1, "max_age": 2}': (["NEL_BAD_TYPE"], None),
    '["ab"]': (["NEL_BAD_STRUCTURE"], None),
    "null": (["NEL_BAD_STRUCTURE"], None),
}


def nel_several(inp, chk, n):
    """Any policies, on one line or several."""
    policies = [inp.choice("p" + str(i), list(POLICY)) for i in range(n)]
    name = b"".join([b"n" if inp.bool("case0") else b"N", b"el" if inp.bool("case1") else b"EL"])
    if inp.bool("lines"):
        headers = [(name, p.encode()) for p in policies]
    else:
        headers = [(name, ", ".join(policies).encode())]
    headers.insert(inp.choice("at", range(len(headers) + 1)), (b"Reporting-Endpoints", b'ab="https://x/", cd="y"'))
    r = lib.response(headers, base_uri="https://h.i/j")
    want, ends = [], []
    for p in policies:
        w, e = POLICY[p]
        want += w
        if e == "zz":
            want.append("NEL_REPORT_TO_MISSING")
        elif e is not None:
            ends.append(e)
    if ends:
        want.append("NEL_CONFIGURED")
        chk.eq(str(lib.find(r, "NEL_CONFIGURED").vars["endpoints"]), ", ".join(["`" + e + "`" for e in ends]), "the endpoints of the policies that are right")
    chk.eq(notes(r, ["NEL_"]), sorted(want), "each policy is judged on its own")
    chk.reach("several policies")


GROUP = {
    '{"max_age": 1, "endpoints": [{"url": "https://a/"}]}': [],
    '{"endpoints": []}': [["REPORT_TO_MISSING_KEY", "max_age"]],
    '{"max_age": "1", "endpoints": [{"url": "a"}, {"url": 1}]}': [["REPORT_TO_BAD_TYPE", "max_age"], ["REPORT_TO_BAD_TYPE", "endpoints[].url"]],
    '{"max_age": 1, "endpoints": [{}, 5]}': [["REPORT_TO_BAD_STRUCTURE", ""], ["REPORT_TO_MISSING_KEY", "endpoints[].url"]],
    '{"max_age": 1}': [["REPORT_TO_MISSING_KEY", "endpoints"]],
    '{"max_age": 1, "endpoints": {}}': [["REPORT_TO_BAD_TYPE", "endpoints"]],
    '"a"': [["REPORT_TO_BAD_STRUCTURE", ""]],
}


def report_several(inp, chk, n):
    """Any groups, on one line or several."""
    groups = [inp.choice("g" + str(i), list(GROUP)) for i in range(n)]
    if inp.bool("lines"):
        headers = [(b"report-to", g.encode()) for g in groups]
    else:
        headers = [(b"Report-To", ", ".join(groups).encode())]
    r = lib.response(headers)
    want = []
    for g in groups:
        want += GROUP[g]
    got = [[type(x).__name__, x.vars.get("key", "")] for x in r.notes if type(x).__name__.startswith("REPORT_TO_")]
    chk.eq(sorted(got), sorted(want), "each group is judged on its own, and the member is named")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    edits = [(0, 0), (0, 1), (1, 0), (1, 1)] + ([(0, 2), (1, 2), (2, 1), (2, 2)] if deep else [])
    for delete, insert in edits:
        e = {"delete": delete, "insert": insert}
        for field in POLICIES:
            out.append({"func": "isolation", "params": {"field": field, **e}})
        for field in ("Cache-Status", "Proxy-Status"):
            out.append({"func": "status", "params": {"field": field, **e}, "weight": 3})
        for field in ("r", "s"):
            out.append({"func": "endpoints", "params": {"field": field, **e}, "weight": 3})
        for f in ("cdn", "forwarded", "dictionary", "permissions", "groups", "available"):
            out.append({"func": f, "params": e, "weight": 3 if f in ("cdn", "permissions") else 1})
    for field in POLICIES:
        for only in ("", "-report-only"):
            out.append({"func": "endpoint", "params": {"field": field + only}})
    for field in TYPES:
        out.append({"func": "types", "params": {"field": field}})
    out.append({"func": "deprecation", "params": {}})
    out.append({"func": "report_to", "params": {}})
    for n in (1, 2, 3, 4, 5) if deep else (1, 3):
        out.append({"func": "nel", "params": {"n": n}})
    for n in (1, 2, 3) if deep else (1, 2):
        out.append({"func": "nel_several", "params": {"n": n}})
        out.append({"func": "report_several", "params": {"n": n}})
    return out


BUDGET = {"quick": 150, "thorough": 800}
BOUNDS = {
    "quick": "known policies, directives, parameters, features, methods and URLs of 20 fields, with any visible character inserted, removed or replaced anywhere; values of every Structured Field and JSON type; fractions of 1 and 3 characters; any 1-2 of 8 NEL policies and of 7 Report-To groups, on one line or two; deprecation against any time of receipt",
    "thorough": "up to two characters replaced by up to two; fractions of 1-5 characters; up to 3 policies and groups",
}
OUTSIDE = "several members of the wrong type (some fields report the first one only), URLs that can't be parsed, parameters' descriptions in the notes' text"
MUST_REACH = ["known policy", "defined endpoint", "DEPRECATION_FUTURE", "DEPRECATION_PAST", "bad type", "secure", "insecure", "right type", "wrong type", "wildcard", "safe", "unsafe", "fraction", "configured", "several policies",
              "CACHE_STATUS_UNKNOWN_PARAM", "CACHE_STATUS_BAD_PARAM_VAL", "PROXY_STATUS_UNKNOWN_PARAM", "PROXY_STATUS_BAD_PARAM_VAL"]
