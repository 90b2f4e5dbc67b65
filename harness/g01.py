"""G01: the command line prints the notes about the message it reads."""
import sys
import time

from harness import f04, lib, seeds
from harness.lib import HttpRequestLinter, HttpResponseLinter

from httplint import cli
from httplint.i18n import set_locale, translate

NOW = 1000000000.5
REQ = f04.REQ
SPACES = [("", ""), (" ", ""), ("  ", " "), ("\t", "\t"), (" \t ", "")]


class Out:
    """Stands in for standard output."""

    encoding = "utf-8"

    def __init__(self):
        self.text = ""

    def write(self, text):
        self.text = self.text + text
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


class In:
    """Stands in for standard input."""

    def __init__(self, data):
        self.buffer = self
        self.data = data

    def read(self, size=-1):
        data, self.data = self.data, b""
        return data


def setup_symbolic():
    from sx import rt

    def m_print(*args, sep=" ", end="\n", file=None, flush=False):
        text = ""
        for i, a in enumerate(args):
            text = text + (sep if i else "") + rt.m_str(a)
        (file or sys.stdout).write(text + end)

    rt.model(print, m_print)


def now():
    return NOW


def command(raw, args):
    """What the command line prints, given a message."""
    before = sys.argv, sys.stdin, sys.stdout, time.time
    out = Out()
    sys.argv, sys.stdin, sys.stdout, time.time = ["httplint"] + args, In(raw), out, now
    direct = getattr(cli, "time", None)
    if callable(direct):
        cli.time = now
    try:
        cli.main()
    finally:
        sys.argv, sys.stdin, sys.stdout, time.time = before
        if callable(direct):
            cli.time = direct
    return out.text


def library(mode, start_time, top, headers, content, trailers):
    if mode == "request":
        m = HttpRequestLinter(start_time=start_time)
        m.process_request_topline(*top)
    else:
        m = HttpResponseLinter(start_time=start_time)
        m.process_response_topline(*top)
    m.process_headers(headers)
    for c in content:
        m.feed_content(c)
    m.finish_content(True, trailers)
    return m


def report(m):
    """What's to be printed about a message's notes."""
    text = ""
    for v in sorted({n.category.value for n in m.notes}):
        text = text + "\n### " + translate(v) + "\n\n"
        for n in m.notes:
            if n.category.value == v:
                text = text + "* [" + n.level.name + "] " + n.summary + "\n"
                for s in n.subnotes:
                    text = text + "  * [" + s.level.name + "] " + s.summary + "\n"
    return text


def block(fields, space):
    before, after = space
    return b"".join([n + b":" + before.encode() + v + after.encode() + b"\r\n" for n, v in fields])


def judge(inp, chk, mode, top, first, fields, space=(" ", ""), body=b"", content=(), trailers=(), options=("now",), before=b""):
    raw = before + first + b"\r\n" + block(fields, space) + b"\r\n" + body
    args, start_time, locale = [], None, None
    if mode == "request" or "mode" in options:
        args = args + ["--input", mode] if "long" in options else args + ["-i", mode]
    if "now" in options:
        args = args + ["--now" if "long" in options else "-n"]
        start_time = NOW
    if "locale" in options:
        args = args + ["--locale" if "long" in options else "-l", "fr"]
        locale = "fr"
    printed = command(raw, args)
    with set_locale(locale):
        m = library(mode, start_time, top, fields, content, list(trailers))
        chk.eq(printed, report(m), "what's printed is the notes about the message, by category")
    chk.reach(mode)
    if len(m.notes) > 3:
        chk.reach("several")


def line(name):
    if name in REQ:
        return "request", (b"GET", b"http://example.com/", b"1.1"), b"GET http://example.com/ HTTP/1.1"
    return "response", (b"1.1", b"204", b"No Content"), b"HTTP/1.1 204 No Content"


def field(inp, chk, name, k, i, delete, insert, options):
    """A message with a field whose value is valid, but for some bytes that are replaced by any others."""
    value = skeleton(name)[k]
    value = value[:i] + inp.bytes("w", insert, alphabet=[c for c in range(1, 256) if c not in (10, 13)]) + value[i + delete:]
    mode, top, first = line(name)
    judge(inp, chk, mode, top, first, [(name.encode(), value.strip(b" \t"))], inp.choice("space", SPACES), options=options)


def pair(inp, chk, name, other, options):
    """Fields are all read, in their order."""
    mode, top, first = line(name)
    fields = [(name.encode(), skeleton(name)[0]), (b"Expires", b"0"), (name.upper().encode(), skeleton(name)[-1])]
    fields.append((inp.bytes("n", 2, alphabet="aZ0-_."), inp.bytes("v", 2, alphabet=list(range(33, 256)))))
    judge(inp, chk, mode, top, first, fields, inp.choice("space", SPACES), options=options)


def first_line(inp, chk, mode, which, n):
    if mode == "response":
        version = inp.choice("version", ["1.0", "1.1", "2"]).encode()
        code = inp.bytes("code", 3, alphabet="2345") if which == "code" else b"200"
        inp.assume(code not in (b"204", b"304"))
        phrase = inp.bytes("phrase", n, alphabet=list(range(33, 127)) + [0xe9]) if which == "phrase" else b"Some words"
        judge(inp, chk, mode, (version, code, phrase), b"HTTP/" + version + b" " + code + (b" " + phrase if phrase else b""), [(b"Content-Length", b"0")])
    else:
        method = inp.bytes("method", n, alphabet="GETPUSOIN-a") if which == "method" else b"GET"
        target = inp.bytes("target", n, alphabet="/:?#a%1[") if which == "target" else b""
        target = b"http://example.com/" + target
        judge(inp, chk, mode, (method, target, b"1.1"), method + b" " + target + b" HTTP/1.1", [(b"User-Agent", b"a")])


def content(inp, chk, mode, framing, n, declared):
    """Content is read as the message's framing says."""
    data = inp.bytes("c", n)
    fields, trailers = [(b"Cache-Control", b"max-age=5")], []
    parts = [data] if data else []
    if framing == "length":
        fields = fields + [(b"Content-Length", str(n).encode())]
        body = data + inp.bytes("after", declared)
    elif framing == "close":
        body = data
    else:
        fields = fields + [(b"Transfer-Encoding", b"chunked")]
        cut = inp.choice("cut", list(range(n + 1)))
        parts = [p for p in (data[:cut], data[cut:]) if p]
        extension = inp.choice("extension", ["", ";a", " ; a=b", ";a=\"b\""]).encode()
        body = b"".join([("%X" % len(p)).encode() + extension + b"\r\n" + p + b"\r\n" for p in parts]) + b"0" * (1 + declared) + extension + b"\r\n"
        if framing == "trailers":
            trailers = [(b"Server-Timing", b"a;dur=" + inp.bytes("dur", 1, alphabet="0a;.")), (b"Age", b"1")]
            body = body + block(trailers, (" ", ""))
        body = body + b"\r\n"
    if mode == "request":
        top, first = (b"PUT", b"http://example.com/", b"1.1"), b"PUT http://example.com/ HTTP/1.1"
    else:
        top, first = (b"1.1", b"200", b"OK"), b"HTTP/1.1 200 OK"
    judge(inp, chk, mode, top, first, fields, body=body, content=parts, trailers=trailers)
    chk.reach(framing)


def interim(inp, chk, n, lines):
    """Informational responses come before the one that's meant."""
    before = []
    for i in range(n):
        before.append(b"HTTP/1.1 1" + inp.bytes("code" + str(i), 2, alphabet="0123456789") + b" " + inp.choice("phrase" + str(i), ["", "A b"]).encode() + b"\r\n")
        before += [b"X-Powered-By: a\r\n"] * lines + [b"\r\n"]
    code = inp.choice("code", ["200", "204", "304", "404", "700"]).encode()
    length = [] if code in (b"204", b"304") else [(b"Content-Length", b"0")]
    judge(inp, chk, "response", (b"1.1", code, b"A"), b"HTTP/1.1 " + code + b" A", length + [(b"Age", b"1")], before=b"".join(before))
    chk.reach("interim")


def skeleton(name):
    return seeds.REQUEST.get(name) or seeds.RESPONSE[name]


OPTIONS = [["now"], [], ["mode", "long"], ["now", "locale"], ["now", "long", "locale"]]


def tasks(tier):
    out = []
    deep = tier != "quick"
    for i, n in enumerate(sorted(set(seeds.REQUEST) | set(seeds.RESPONSE))):
        if n in ("content-length", "transfer-encoding"):
            continue  # they're in `content`
        for k, v in enumerate(skeleton(n)):
            if not deep and k > 1:
                break
            for j in range(0, len(v), 2) if deep else [len(v) // 2]:
                out.append(dict(func="field", params=dict(name=n, k=k, i=j, delete=1, insert=1, options=OPTIONS[0 if deep and j != len(v) // 2 else (i + k) % 5])))
        if deep or i % 3 == 0:
            out.append(dict(func="pair", params=dict(name=n, other=n, options=OPTIONS[i % 5])))
    for n in range(0, 4 if deep else 3):
        out.append(dict(func="first_line", params=dict(mode="response", which="phrase", n=n)))
        if n:
            out.append(dict(func="first_line", params=dict(mode="request", which="method", n=n + 1)))
            out.append(dict(func="first_line", params=dict(mode="request", which="target", n=n)))
    out.append(dict(func="first_line", params=dict(mode="response", which="code", n=0)))
    for n in (1, 2) if not deep else (1, 2, 3):
        for k in (0, 1, 2):
            out.append(dict(func="interim", params=dict(n=n, lines=k)))
    for mode in ("request", "response"):
        for framing in ("length", "close", "chunked", "trailers"):
            if mode == "request" and framing == "close":
                continue
            for n in (0, 1, 3) if not deep else (0, 1, 2, 3, 4, 11):
                if mode == "request" and framing == "length" and n == 0:
                    continue
                for d in (0, 2):
                    if framing != "close" or d == 0:
                        out.append(dict(func="content", params=dict(mode=mode, framing=framing, n=n, declared=d)))
    return out


BOUNDS = {
    "quick": "every documented field with up to two skeleton values, one byte of which is any byte, with five kinds of whitespace around it; repeated and unknown fields; phrases, methods and targets of up to 3 characters; status codes of 3 digits; content of up to 3 bytes, delimited by length, close or (two) chunks with extensions, and trailers; up to two informational responses (with any code) before the one that's judged; every option",
    "thorough": "as quick, with every skeleton value, every second byte of it replaced, and content of up to 11 bytes",
}
OUTSIDE = "messages that aren't well-formed or complete, and informational responses that none follows (nothing is printed about them); requests' targets in origin form; bare line feeds; reading standard input in pieces"
ASSUMPTIONS = ["sys.stdin, sys.stdout, sys.argv and time.time are replaced by stand-ins", "thor.http.common is executed symbolically; argparse isn't"]
BUDGET = {"quick": 60, "thorough": 600}
CONTINUE = True
MUST_REACH = ["request", "response", "several", "length", "close", "chunked", "trailers", "interim"]
