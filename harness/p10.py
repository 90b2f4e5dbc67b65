"""P10: codings are compared with those the request accepts."""
import re

from harness import fields, lib
from harness.p06 import QVALUE, lines, unique

CODINGS = ["gzip", "GZIP", "br", "foo", "dcb", "dcz"]
AE = ["gzip", "br;q=0", "*", "*;q=0", "GZip;q=0.001", "gzip;q=0.000", "dcb, br", "identity;q=0", "br;q=1", "foo;x=0"]


def weights(text):
    """Codings and their weights, of an Accept-Encoding or TE value (lower case names)."""
    out = []
    for item in text.split(","):
        parts = item.split(";")
        q = None
        for p in parts[1:]:
            k, v = p.split("=")
            if k.strip(" ").lower() == "q":
                q = v.strip(" ")
        out.append([parts[0].strip(" ").lower(), q])
    return out


def zero(q):
    return q is not None and re.fullmatch(r"0(\.0{0,3})?", q) is not None


def accepts(coding, ws, star):
    for name in (coding, "*") if star else (coding,):
        qs = [q for n, q in ws if n == name]
        if qs:
            return not all([zero(q) for q in qs])
    return False


def content(inp, chk, count, layout, size):
    """Any codings, against any Accept-Encoding."""
    codings = lib.pick(inp, "c", CODINGS, count)
    ae = lib.pick(inp, "a", AE, size)
    mode = inp.choice("mode", ["request", "none", "ce-request"])
    store = inp.bool("store") if count == 1 else True
    vary = inp.choice("vary", [None, "Available-Dictionary", "accept-encoding"]) if count == 1 else None
    headers = [(b"Content-Encoding", v) for v in lines(codings, layout)]
    headers.append((b"Cache-Control", b"max-age=60" if store else b"no-store"))
    if vary:
        headers.append((b"Vary", vary.encode()))
    if mode == "ce-request":
        r = lib.request(headers, method=b"POST", content=b"")
        chk.eq(lib.count(r, "ENCODING_UNWANTED") + lib.count(r, "DICTIONARY_COMPRESSED_MISSING_VARY"), 0, "requests aren't judged as responses")
        return
    req = lib.request([(b"Accept-Encoding", ", ".join(ae).encode())] if ae else []) if mode == "request" else None
    r = lib.response(headers, req=req)
    chk.eq(r.headers.parsed["content-encoding"], [c.lower() for c in codings], "codings, in any case")
    ws = weights(", ".join(ae)) if ae else []
    want = [c for c in codings if not accepts(c.lower(), ws, True)] if req is not None else []
    chk.eq([n.vars["coding"] for n in r.notes if type(n).__name__ == "ENCODING_UNWANTED"], want, "codings that the request doesn't accept, and no others, are reported")
    dictionary = "dcb" in codings or "dcz" in codings
    chk.eq(lib.count(r, "DICTIONARY_COMPRESSED_MISSING_VARY"), 1 if dictionary and store and vary != "Available-Dictionary" else 0, "stored responses that use a dictionary vary on it")
    if want:
        chk.reach("unwanted")
    elif req is not None:
        chk.reach("wanted")
    if dictionary:
        chk.reach("dictionary")


def weight(inp, chk, field, n):
    """Any weight."""
    q = inp.text("q", n, alphabet="01.359")
    inp.assume(QVALUE.match(q) is not None)
    eq = inp.choice("eq", [";q=", " ; Q=", ";\tq="])
    req = lib.request([(field.encode(), ("foo" + eq + q + ", bar").encode())])
    if field == "Accept-Encoding":
        r = lib.response([(b"Content-Encoding", b"foo")], req=req)
        got = lib.count(r, "ENCODING_UNWANTED")
    else:
        r = lib.response([(b"Transfer-Encoding", b"foo")], req=req)
        got = lib.count(r, "TRANSFER_CODING_UNWANTED")
    chk.eq(got, 1 if zero(q) else 0, "a weight of zero, and no other, means that a coding isn't accepted")
    chk.reach("zero" if zero(q) else "nonzero")


def named(inp, chk, field, n):
    """Any names: they're compared whatever their case."""
    a = inp.text("a", n, alphabet="abAB-")
    b = inp.text("b", n, alphabet="abAB-")
    req = lib.request([(field.encode(), a.encode())])
    if field == "Accept-Encoding":
        r = lib.response([(b"Content-Encoding", b.encode())], req=req)
        got = lib.count(r, "ENCODING_UNWANTED")
    else:
        r = lib.response([(b"Transfer-Encoding", b.encode())], req=req)
        got = lib.count(r, "TRANSFER_CODING_UNWANTED")
    same = a.lower() == b.lower()
    chk.eq(got, 0 if same else 1, "codings' names are compared whatever their case")
    chk.reach("same" if same else "other")


TE = ["gzip", "foo;q=0", "trailers", "Foo;q=0.5", "bar;q=1", "*"]


def transfer(inp, chk, count, layout, size):
    """Any transfer codings, against any TE."""
    items = lib.pick(inp, "c", ["chunked", "Chunked", "gzip", "foo", "identity", "foo;a=b", "chunked;q=1", "Identity;a=b"], count)
    te = lib.pick(inp, "t", TE, size)
    mode = inp.choice("mode", ["request", "none", "te-request"])
    headers = [(b"Transfer-Encoding", v) for v in lines(items, layout)]
    req = None
    if mode == "te-request":
        r = lib.request(headers, method=b"POST", content=b"")
    else:
        if mode == "request":
            req = lib.request([(b"TE", ", ".join(te).encode()), (b"Connection", b"te")] if te else [])
        r = lib.response(headers, req=req)
    codings = [i.split(";")[0].lower() for i in items]
    chk.eq([c for c, p in r.headers.parsed["transfer-encoding"]], codings, "codings, in any case")
    want = []
    if req is not None:
        ws = weights(", ".join(te)) if te else []
        want = [c for c in unique(codings) if c not in ("chunked", "identity") and not accepts(c, ws, False)]
    chk.eq([n.vars["coding"] for n in r.notes if type(n).__name__ == "TRANSFER_CODING_UNWANTED"], want, "transfer codings that the request doesn't accept, and no others, are reported")
    chk.eq(lib.count(r, "TRANSFER_CODING_IDENTITY"), 1 if "identity" in codings else 0, "identity is reported")
    chk.eq(lib.count(r, "TRANSFER_CODING_PARAM"), len([i for i in items if ";" in i]), "parameters are reported")
    chk.reach("transfer-unwanted" if want else "transfer")


DICT = ":pZGm1Av0IEBKARczz7exkNYsZb8LzaMrV7J32a2fFG4=:"


def available(inp, chk, size):
    """Available-Dictionary, and the Accept-Encoding that goes with it."""
    value = inp.choice("value", [DICT, '"foo"', "foo", "5", "?1"])
    ae = [inp.choice("a" + str(i), ["gzip", "dcb", "DCZ", "dcb;q=0", "dcz;q=0.1", "*"]) for i in range(size)]
    headers = [(b"Available-Dictionary", value.encode())]
    if ae:
        headers.insert(0 if inp.bool("order") else 1, (b"Accept-Encoding", ", ".join(ae).encode()))
    q = lib.request(headers)
    ws = weights(", ".join(ae)) if ae else []
    chk.eq(lib.count(q, "AVAILABLE_DICTIONARY_BAD_TYPE"), 0 if value == DICT else 1, "values that aren't byte sequences are reported")
    chk.eq(lib.count(q, "AVAILABLE_DICTIONARY_MISSING_AE"), 0 if accepts("dcb", ws, False) or accepts("dcz", ws, False) else 1, "dictionaries that couldn't be used are reported")
    chk.reach("available")


USE = ["match=\"/x*\"", "match=foo", "match=5", "match=(\"a\")", "match", "match-dest=(\"a\" \"b\")", "match-dest=\"a\"", "match-dest=(\"a\" 1)", "match-dest=()", "match-dest=5", "id=\"x\"", "id=x", "id=()", "type=raw", "type=\"raw\"", "type=(a)", "ttl=60", "ttl=6.5", "ttl=?1", "ttl=(1)", "other=x", "other=(1)"]
# the values that are strings, strings, tokens and integers
GOOD = ["match=\"/x*\"", "id=\"x\"", "type=raw", "ttl=60"]
# lists of strings (or one)
GOOD_DEST = ["match-dest=(\"a\" \"b\")", "match-dest=\"a\"", "match-dest=()"]


def use(inp, chk, count):
    """Use-As-Dictionary's parameters."""
    ps = lib.pick(inp, "p", USE, count)
    keys = [p.split("=")[0] for p in ps]
    inp.assume(len(unique(keys)) == len(keys))
    r = lib.response([(b"Use-As-Dictionary", ", ".join(ps).encode())])
    bad = [k for k, p in zip(keys, ps) if k in ("match", "id", "type", "ttl") and p not in GOOD]
    # a string isn't told from a token by everything that reads strings
    chk.eq([n.vars["param"] for n in r.notes if type(n).__name__ == "USE_AS_DICTIONARY_BAD_TYPE"], bad, "parameters with the wrong type, and no others, are reported")
    chk.eq(lib.count(r, "USE_AS_DICTIONARY_BAD_MATCH_DEST"), len([p for k, p in zip(keys, ps) if k == "match-dest" and p not in GOOD_DEST]), "destinations that aren't strings are reported")
    chk.reach("use")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for layout in range(4):
        for count, size in ((1, 0), (1, 1), (1, 2), (2, 1)) + (((2, 2), (3, 1)) if deep else ()) + (((11, 1), (1, 11), (30, 1)) if layout in (0, 3) else ()):
            if count > 1 or layout == 0:
                out.append(dict(func="content", params=dict(count=count, layout=layout, size=size), weight=6 ** min(count, 3) * 10 ** min(size, 2)))
        for count, size in ((1, 0), (1, 1), (1, 2), (2, 1)) + (((3, 1), (2, 2)) if deep else ()) + (((11, 1), (1, 11), (30, 1)) if layout in (0, 3) else ()):
            if count > 1 or layout == 0:
                out.append(dict(func="transfer", params=dict(count=count, layout=layout, size=size), weight=6 ** min(count, 3) * 6 ** min(size, 2)))
    for field in ("Accept-Encoding", "TE"):
        for n in (1, 2, 3, 4, 5):
            out.append(dict(func="weight", params=dict(field=field, n=n)))
        for n in (1, 2, 3) if deep else (1, 2):
            out.append(dict(func="named", params=dict(field=field, n=n)))
    for size in (0, 1, 2):
        out.append(dict(func="available", params=dict(size=size)))
    for count in (1, 2, 3) if deep else (1, 2):
        out.append(dict(func="use", params=dict(count=count), weight=22 ** (count - 1)))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["unwanted", "wanted", "dictionary", "zero", "nonzero", "same", "other", "transfer-unwanted", "transfer", "available", "use"]
BOUNDS = {
    "quick": "any two of 6 content codings (or 8 transfer codings) in four layouts, against any of 10 (6) members of Accept-Encoding (TE), or two members for one coding; 11 and 30 codings for one member, and one for 11; all valid weights; names of up to 2 characters; any two of 22 parameters of Use-As-Dictionary",
    "thorough": "three codings, two members, three parameters",
}
OUTSIDE = "`identity` as a content coding; whether x-gzip is gzip; weights that aren't valid; whether requests without Accept-Encoding accept everything (httplint reports codings there)"
ASSUMPTIONS = []
