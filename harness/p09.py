"""P09: media types are well-named, and they and their charsets are compared with the content."""
import codecs
import re

import chardet
import sniffpy

from harness import fields, lib
from httplint import charset, content_type

# --- names (RFC 6838 section 4.2)


def name_ok(name):
    return re.fullmatch("[A-Za-z0-9][A-Za-z0-9!#$&^_.+-]*", name)


TOKEN = "[A-Za-z0-9!#$%&'*+.^_`|~-]+"


def judge(text, wild):
    """None if it isn't a media type (or range), or the faults of its names."""
    parts = text.split("/")
    if len(parts) != 2 or not parts[0] or not parts[1]:
        return None
    names = parts
    if "*" in parts:
        if not wild or parts[0] == "*" and parts[1] != "*":
            return None
        names = [p for p in parts if p != "*"]
    if not all([re.fullmatch(TOKEN, n) for n in names]):
        return None
    out = []
    if any([not name_ok(n) for n in names]):
        out.append("MEDIA_TYPE_BAD_NAME")
    if any([len(n) > 127 for n in names]):
        out.append("MEDIA_TYPE_LONG_NAME")
    return out


BAD = {"Accept-Patch": "ACCEPT_PATCH_BAD_SYNTAX", "Accept-Post": "ACCEPT_POST_BAD_SYNTAX", "Accept-Query": "ACCEPT_QUERY_BAD_SYNTAX", "Accept": "ACCEPT_BAD_SYNTAX", "Content-Type": None}


def check_name(chk, field, text, params=""):
    value = '"' + text + '"' if field == "Accept-Query" else text
    send = lib.request if field == "Accept" else lib.response
    r = send([(field.encode(), value.encode() + params.encode())])
    want = judge(text, field in ("Accept", "Accept-Post", "Accept-Query"))
    got = sorted([n for n in lib.all_names(r) if n[:11] == "MEDIA_TYPE_" or n == BAD[field]])
    if want is None:
        chk.eq([n for n in got if n == BAD[field]], [BAD[field]] if BAD[field] else [], "what isn't a media type is reported")
        chk.reach("not-type")
        return
    chk.eq(got, want, "media types whose names are bad or long are reported")
    for n in lib.all_notes(r):
        if type(n).__name__[:11] == "MEDIA_TYPE_":
            chk.eq(n.vars["value"], text.lower(), "and named")
    chk.reach("bad-name" if want else "name")


def names(inp, chk, field, n, before, after):
    text = before + inp.text("t", n, alphabet="aZ0/*.~+!'$%`|-") + after
    want = judge(text, field in ("Accept", "Accept-Post", "Accept-Query"))
    inp.assume(want is not None or text.count("/") == 1 and "*" in text or field == "Accept-Query")
    inp.assume(field != "Accept" or "*" not in text or text == "*/*" or text[-2:] == "/*" and "*" not in text[:-2])
    check_name(chk, field, text)


def long(inp, chk, field):
    n = inp.choice("n", [1, 126, 127, 128, 129])
    m = inp.choice("m", [1, 126, 127, 128, 129])
    check_name(chk, field, "a" * n + "/" + "b" * m, inp.choice("params", ["", ";a=b"]))


# --- the content's type


def patched(sniff, detect, f):
    """f(), with the libraries that guess types replaced."""
    saved = []
    for m, name, stub in ((sniffpy, "sniff", sniff), (content_type, "sniff", sniff), (chardet, "detect", detect), (charset, "detect", detect)):
        if hasattr(m, name):
            saved.append((m, name, getattr(m, name)))
            setattr(m, name, stub)
    try:
        return f()
    finally:
        for m, name, old in saved:
            setattr(m, name, old)


NOTHING = {"encoding": None, "confidence": 0.0, "language": None}
TYPES = ["text/html", "text/plain", "application/rss+xml", "application/atom+xml", "image/png", "application/json", "text/xml"]
SKIPPED = [100, 101, 204, 205, 206, 304]


def content(inp, chk, status, head):
    declared = inp.choice("declared", TYPES)
    sniffed = inp.choice("sniffed", TYPES)
    body = inp.choice("body", [b"", b"abc"])
    cased = inp.bool("upper")
    value = (declared.upper() if cased else declared) + inp.choice("params", ["", "; a=\"b/c\""])
    kw = {}
    code = int(status)

    def go():
        return run(value, body, status.encode(), head)

    r = patched(lambda *a, **k: sniffed, lambda *a, **k: NOTHING, go)
    skip = head or code in SKIPPED or not body
    other = sniffed != declared and not (declared == "text/html" and sniffed in ("application/rss+xml", "application/atom+xml"))
    notes = [n for n in r.notes if type(n).__name__ == "CONTENT_TYPE_MISMATCH"]
    chk.eq([[n.vars["declared_type"], n.vars["sniffed_type"]] for n in notes], [[declared, sniffed]] if other and not skip else [], "content of another type is reported, when there is any")
    chk.reach("mismatch" if other and not skip else "match")


def run(value, body, status=b"200", head=False):
    r = lib.HttpResponseLinter(start_time=1000000000)
    r.is_head_response = head
    r.process_response_topline(b"HTTP/1.1", status, b"OK")
    r.process_headers([(b"Content-Type", value.encode())] if value else [])
    r.feed_content(body)
    r.finish_content(True)
    return r


def untyped(inp, chk):
    """No type, or one that the sniffer can't use."""
    value = inp.choice("value", ["", "foo", "text/", "text/plain"])
    fails = inp.bool("fails")

    def sniff(*a, **k):
        if fails:
            raise ValueError("bad")
        return "image/png"

    r = patched(sniff, lambda *a, **k: NOTHING, lambda: run(value, b"abc"))
    if fails or not value:
        chk.eq(lib.count(r, "CONTENT_TYPE_MISMATCH"), 0, "what can't be compared isn't")
    if value == "text/plain" and not fails:
        chk.eq(lib.count(r, "CONTENT_TYPE_MISMATCH"), 1, "content of another type is reported")


# --- its charset

CHARSETS = ["utf-8", "UTF8", "iso-8859-1", "Windows-1252", "Shift_JIS", "us-ascii", "utf-16", "koi8-r", "undefined", "foo", "hex", "idna", "punycode", "unicode_escape", "rot13", "utf-8\\\"", ""]
BODIES = [b"abc", b"  \r\n", "caf\u00e9".encode("utf-8"), "caf\u00e9".encode("latin-1"), "\u65e5\u672c".encode("shift_jis"), "\u65e5\u672c".encode("utf-8"), b"\xff\xfea\0", b"\x80", b"\xc3", b"a\\xe9\xe9\\", b"\x81\x8d"]
DETECTED = ["utf-8", "ISO-8859-1", "windows-1252", "SHIFT_JIS", "koi8-r", "foo", None]
CONFIDENCE = [None, 0.0, 0.49, 0.5, 1.0]


def decodes(name, sample, truncated):
    """The text, or None."""
    try:
        return sample.decode(name)
    except Exception:
        if truncated:
            try:
                return codecs.getincrementaldecoder(name)().decode(sample)
            except Exception:
                return None
        return None


def known(name):
    try:
        return codecs.lookup(name).name
    except Exception:
        return None


def check_charset(inp, chk, media, declared, body, detected, confidence, status="200", head=False):
    value = media + ("; charset=" + ('"' + declared + '"') if declared is not None else "")
    result = {"encoding": detected, "confidence": confidence, "language": None}
    r = patched(lambda *a, **k: "application/octet-stream", lambda *a, **k: result, lambda: run(value, body, status.encode(), head))
    notes = [n for n in r.notes if type(n).__name__[:8] == "CHARSET_"]
    low = media.lower()
    unquoted = None if declared is None else declared.replace("\\\"", "\"")
    if low in ("application/json", "text/json") or low[-5:] == "+json":
        effective, implicit = "utf-8", declared is None
    elif low[:5] == "text/" and unquoted:
        effective, implicit = unquoted, False
    else:
        effective, implicit = None, False
    want = []
    sample = body[:8192]
    truncated = len(body) > 8192
    if effective is not None and known(effective) and sample.strip() and any([b >= 128 for b in sample]) and int(status) not in SKIPPED and not head:
        text = decodes(effective, sample, truncated)
        if text is None:
            want = [["CHARSET_UNDECODABLE", None, effective, detected or "unknown"]]
            chk.reach("undecodable")
        elif detected and known(detected) and known(detected) != known(effective) and confidence and confidence >= 0.5 and decodes(detected, sample, truncated) != text:
            want = [["CHARSET_IMPLICIT_MISMATCH", low, effective, detected] if implicit else ["CHARSET_MISMATCH", None, effective, detected]]
            chk.reach("implicit" if implicit else "charset-mismatch")
    got = [[type(n).__name__, n.vars.get("media_type"), n.vars["declared_charset"], n.vars["detected_charset"]] for n in notes]
    chk.eq(got, want, "content that can't be in its charset, or seems to be in another, is reported")
    chk.reach("charset")


def charsets(inp, chk, body):
    """Any charset, for any content, however it's detected."""
    check_charset(inp, chk, "text/plain", inp.choice("declared", CHARSETS), BODIES[body], inp.choice("detected", DETECTED), inp.choice("confidence", CONFIDENCE))


def media(inp, chk, body):
    """Any type, with and without a charset."""
    m = inp.choice("media", ["text/html", "TEXT/Plain", "application/json", "text/json", "Application/A+JSON", "application/jsonx", "image/svg+xml", "application/xml", "textual/plain", "text/a+json"])
    check_charset(inp, chk, m, inp.choice("declared", ["iso-8859-1", "utf-8", None]), BODIES[body], inp.choice("detected", ["utf-8", "windows-1252", None]), 1.0)


def near(inp, chk, base, at):
    """Types with any character put, or replaced, in any place."""
    text = base[:at] + inp.text("t", 1, alphabet="+/jsontexJx-.") + base[at + inp.choice("replaced", [0, 1]):]
    inp.assume(re.fullmatch("[^/]+/[^/]+", text))
    check_charset(inp, chk, text, inp.choice("declared", ["utf-8", None]), inp.choice("body", [b"\xff", "caf\u00e9".encode("utf-8")]), "windows-1252", 1.0)
    chk.reach("near")


def statuses(inp, chk):
    status = inp.choice("status", ["200", "203", "206", "304", "204", "205", "404", "100", "500"])
    check_charset(inp, chk, "text/plain", "utf-8", b"\xff", None, 0.0, status, inp.bool("head"))


def truncated(inp, chk, size):
    """Content that's longer than its sample, which can end inside a character."""
    pad = size - inp.choice("back", range(0, 9))
    tail = inp.choice("tail", ["\u65e5\u672c\U0001F600\u00e9".encode("utf-8"), "\u65e5\u672c\u8a9e\u6587\u5b57".encode("shift_jis"), b"\xe6\x97a\xe6\x97\xa5bcde\xf0\x9f"])
    body = b"\xc3\xa9" + b"a" * (pad - 2) + tail
    inp.assume(len(body) != 8192)
    check_charset(inp, chk, "text/plain", inp.choice("declared", ["utf-8", "shift_jis", "windows-1252"]), body, inp.choice("detected", ["utf-8", "shift_jis", None]), 1.0)


def cased(inp, chk):
    """The parameter's name and value in any case."""
    value = b"text/plain; " + fields.anycase(inp, "charset", "n") + b"=" + fields.anycase(inp, "utf-8", "v")
    r = patched(lambda *a, **k: "text/plain", lambda *a, **k: NOTHING, lambda: run(value.decode("ascii"), b"\xff"))
    chk.eq(lib.count(r, "CHARSET_UNDECODABLE"), 1, "charsets are recognised in any case")


def tasks(tier):
    deep = tier == "thorough"
    out = [dict(func="untyped", params={}), dict(func="statuses", params={}), dict(func="cased", params={})]
    for field in BAD:
        out.append(dict(func="long", params=dict(field=field)))
        for before, after in (("", "/b"), ("a/", ""), ("a", "b"), ("x/y", "z")):
            for n in (1, 2, 3) if deep else (1, 2):
                out.append(dict(func="names", params=dict(field=field, n=n, before=before, after=after), weight=4 ** n))
    for status in ("200", "203", "204", "205", "206", "304", "404", "100", "500"):
        for head in (False, True):
            out.append(dict(func="content", params=dict(status=status, head=head), weight=30))
    for body in range(len(BODIES)):
        out.append(dict(func="charsets", params=dict(body=body), weight=30))
        out.append(dict(func="media", params=dict(body=body), weight=10))
    for base in ("application/json", "text/json", "a/b+json", "text/xml"):
        for at in range(len(base) + 1):
            out.append(dict(func="near", params=dict(base=base, at=at)))
    for size in (8192, 8190) if deep else (8192,):
        out.append(dict(func="truncated", params=dict(size=size), weight=10))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["name", "bad-name", "not-type", "mismatch", "match", "undecodable", "implicit", "charset-mismatch", "charset", "near"]
BOUNDS = {
    "quick": "up to 2 arbitrary characters (of 15) in four places of a media type in five fields, and names of 1 to 129 characters; 7 declared and 7 sniffed types in 9 statuses; 17 charsets (undefined, unknown and binary codecs among them), 11 bodies, 7 detected encodings with 5 confidences; 10 types with and without charset, and 4 with any character (of 13) put or replaced at any place; 27 endings of content about the sample's size",
    "thorough": "the same with 3 arbitrary characters in media types, and 54 endings",
}
OUTSIDE = "what the sniffing and detection libraries say (N01): they're replaced by arbitrary answers; content of exactly the sample's size, which httplint takes as possibly truncated; charset names that aren't ASCII"
ASSUMPTIONS = ["sniffpy.sniff and chardet.detect answer with any of the listed types and encodings, or raise (sniffing)"]
