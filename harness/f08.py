"""F08: Structured Fields are parsed as RFC 9651 says, or reported and ignored."""
from harness import lib, sf
from harness.f04 import ODD

FIELDS = {
    "accept-ch": "list", "accept-query": "list", "cache-group-invalidation": "list", "cache-groups": "list", "cache-status": "list", "proxy-status": "list",
    "speculation-rules": "list", "cdn-cache-control": "dictionary", "permissions-policy": "dictionary", "reporting-endpoints": "dictionary",
    "use-as-dictionary": "dictionary", "available-dictionary": "item", "cross-origin-embedder-policy": "item", "cross-origin-opener-policy": "item",
    "cross-origin-embedder-policy-report-only": "item", "cross-origin-opener-policy-report-only": "item", "deprecation": "item",
}
BYTES = [c for c in range(256) if c not in ODD]
ONE = {"list": "cache-groups", "dictionary": "cdn-cache-control", "item": "deprecation"}
SKELETONS = {
    "list": ['a;b;c="d\\"e", (x 1;y);z, ?1', "-12.5;a=-3;a=*t/: , :YQ==:", '"";q=1.000;q2', "( ), a/b"],
    "dictionary": ['a=1, b;c=?0, d=("e" f);g', "a, a=b\t,a;x;x", '*a_-.=:YWI=:', 'max-age=60, private="x"'],
    "item": ["@1688169599;a=b", '"a b,c;d"; e', ":YQ==:", "require-corp;report-to=\"x\"", "?1"],
}
SPECIFIC = ["DEPRECATION_", "CDN_CACHE", "BAD_CDN", "CACHE_STATUS", "PROXY_STATUS", "CACHE_GROUP", "PERMISSIONS_", "ENDPOINT_", "BAD_REPORTING", "USE_AS", "AVAILABLE_DICTIONARY_BAD",
            "COEP_", "COOP_", "CROSS_ORIGIN", "ACCEPT_CH", "ACCEPT_QUERY", "SPECULATION", "MEDIA_TYPE", "DUPLICATE_KEY"]


def send(name, lines):
    fields = [(name.encode(), l) for l in lines]
    if name == "available-dictionary":
        return lib.request(fields + [(b"Accept-Encoding", b"dcb")])
    return lib.response(fields)


def judge(inp, chk, name, lines):
    kind = FIELDS[name]
    text = ", ".join([l.decode("latin-1") for l in lines]).strip(" \t")
    # not modelled: byte sequences' padding, display strings, far away dates
    inp.assume('%"' not in text)
    good = sf.valid(text, kind)
    if not good and ":" in text:
        return
    r = send(name, lines)
    errors = lib.count(r, "STRUCTURED_FIELD_PARSE_ERROR")
    chk.eq(errors, 0 if good else 1, "values that aren't Structured Fields are reported, and no others")
    v = r.headers.parsed.get(name, None)
    if not good:
        chk(v is None, "a value that isn't valid is ignored")
        for n in lib.all_names(r):
            chk(not any([n.startswith(s) for s in SPECIFIC if s != "DUPLICATE_KEY"]), "and nothing is said about its content")
        chk.reach("invalid")
        return
    reader = sf.Reader(text)
    want = reader.read(kind)
    if name != "accept-query":  # media types are in lower case
        chk.eq(sf.plain(v, kind), want, "the structure it denotes")
    chk.eq(lib.count(r, "DUPLICATE_KEY"), reader.repeated, "repeated keys are reported")
    if reader.repeated:
        chk.reach("repeated")
    chk.reach(kind)


def whole(inp, chk, name, n):
    """Every value of n bytes."""
    judge(inp, chk, name, [inp.bytes("v", n, alphabet=BYTES)])


def edit(inp, chk, name, i, delete, insert):
    """A valid value with some bytes replaced by any others."""
    v = SKELETONS[FIELDS[name]][i].encode()
    pos = inp.choice("pos", range(0, len(v) - delete + 1))
    w = inp.bytes("w", insert, alphabet=BYTES) if insert else b""
    judge(inp, chk, name, [v[:pos] + w + v[pos + delete:]])


def lines(inp, chk, name, i, n):
    """Two lines, with any bytes at the border."""
    v = SKELETONS[FIELDS[name]][i].encode()
    judge(inp, chk, name, [v + inp.bytes("a", n, alphabet=BYTES), inp.bytes("b", n, alphabet=BYTES) + v])


def among(inp, chk, name, i, n, before, after):
    """A line of any n bytes before, after or between lines with a valid value."""
    v = SKELETONS[FIELDS[name]][i].encode()
    judge(inp, chk, name, [v] * before + [inp.bytes("w", n, alphabet=BYTES) if n else b""] + [v] * after)


def many(inp, chk, name):
    """Many members, on one line, on two, or on one line each, with any byte in one of them."""
    kind = FIELDS[name]
    n = inp.choice("count", [8, 33, 130])
    at = inp.choice("at", [0, n // 2, n - 1])
    w = inp.bytes("w", 1, alphabet=BYTES)
    params = inp.choice("in", ["members", "parameters", "inner list"] if kind != "item" else ["parameters"])
    if params == "members":
        ms = [b"m%d" % i + (w if i == at else b"") for i in range(n)]
        layout = inp.choice("layout", [0, 1, 2])
        judge(inp, chk, name, [b", ".join(ms)] if layout == 0 else ms if layout == 1 else [b",".join(ms[:n // 2]), b" ,".join(ms[n // 2:])])
    elif params == "parameters":
        judge(inp, chk, name, [b"a" + b"".join([b";p%d" % i + (w if i == at else b"") for i in range(n)])])
    else:
        judge(inp, chk, name, [(b"(" if kind == "list" else b"d=(") + b" ".join([b"i%d" % i + (w if i == at else b"") for i in range(n)]) + b")"])
    chk.reach("many")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for name, kind in FIELDS.items():
        main = name == ONE[kind]
        for n in ((1, 2, 3, 4) if deep else (1, 2, 3)) if main or deep else (1, 2):
            out.append({"func": "whole", "params": {"name": name, "n": n}, "weight": 1 + n})
        if main or deep:
            out.append({"func": "many", "params": {"name": name}, "weight": 10})
        for before, after in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 2)):
            for n in (0, 1, 2) if deep or main and before + after == 1 else (0,) + ((1,) if main else ()):
                out.append({"func": "among", "params": {"name": name, "i": 0, "n": n, "before": before, "after": after}})
        for i in range(len(SKELETONS[kind])):
            edits = [(0, 1)]
            if main or deep:
                edits += [(1, 0), (1, 1)]
            if deep and main:
                edits += [(0, 2), (2, 1), (2, 2)]
            for delete, insert in edits if main or deep or i == 1 else []:
                out.append({"func": "edit", "params": {"name": name, "i": i, "delete": delete, "insert": insert}, "weight": 3})
            out.append({"func": "lines", "params": {"name": name, "i": i, "n": 0 if not main else 1}})
    return out


BUDGET = {"quick": 150, "thorough": 800}
BOUNDS = {
    "quick": "17 Structured Fields: every value of 1-2 bytes (3 for one List, one Dictionary and one Item), 4-5 typical values with any byte inserted, removed or replaced anywhere, two lines with any bytes at the border, and lines of 0-2 bytes before, between or after others; up to 130 members, parameters or items, with any byte in one of them",
    "thorough": "every value of 1-4 bytes; up to two bytes of the typical values replaced by up to two",
}
OUTSIDE = "byte sequences that aren't in canonical Base64, Display Strings, dates beyond the year 5000 (all left to http_sf); numbers' values other than integers"
MUST_REACH = ["many", "invalid", "repeated", "list", "dictionary", "item"]
