"""RFC 9651 (Structured Field Values): what's valid, and what it means. Written from its text, independently of http_sf."""
import re

KEY = r"[a-z*][a-z0-9_\-.*]*"
NUMBER = r"-?(?:[0-9]{1,12}\.[0-9]{1,3}|[0-9]{1,15})(?![0-9.])"
STRING = r'"(?:[ !#-\[\]-~]|\\["\\])*"'
TOKEN = r"[A-Za-z*][!#$%&'*+\-.^_`|~0-9A-Za-z:/]*"
BYTES = ":(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?:"
BARE = "(?:" + "|".join([NUMBER, STRING, TOKEN, BYTES, r"\?[01]", "@-?[0-9]{1,11}(?![0-9.])"]) + ")"
PARAMS = "(?:; *" + KEY + "(?:=" + BARE + ")?)*"
ITEM = BARE + PARAMS
INNER = r"\( *(?:" + ITEM + "(?: +" + ITEM + r")*)? *\)" + PARAMS
MEMBER = "(?:" + ITEM + "|" + INNER + ")"
OWS = "[ \\t]*"
ENTRY = KEY + "(?:=" + MEMBER + "|" + PARAMS + ")"
SYNTAX = {
    "item": ITEM,
    "list": "(?:" + MEMBER + "(?:" + OWS + "," + OWS + MEMBER + ")*)?",
    "dictionary": "(?:" + ENTRY + "(?:" + OWS + "," + OWS + ENTRY + ")*)?",
}


def valid(text, kind):
    return re.fullmatch(SYNTAX[kind], text) is not None


class Reader:
    """Reads valid text. Values are ["kind", value] pairs; `repeated` is the number of repeated keys."""

    def __init__(self, text):
        self.text = text
        self.pos = 0
        self.repeated = 0

    def peek(self):
        return self.text[self.pos] if self.pos < len(self.text) else ""

    def take(self, pattern):
        m = re.match(pattern, self.text[self.pos:])
        self.pos += m.end()
        return m.group(0)

    def skip(self, chars):
        while self.pos < len(self.text) and self.text[self.pos] in chars:
            self.pos += 1

    def bare(self):
        c = self.peek()
        if c == '"':
            self.pos += 1
            out = ""
            while self.peek() != '"':
                if self.peek() == "\\":
                    self.pos += 1
                out = out + self.peek()
                self.pos += 1
            self.pos += 1
            return ["string", out]
        if c == "?":
            return ["boolean", self.take(r"\?[01]")[1] == "1"]
        if c == "@":
            self.pos += 1
            self.take("-?[0-9]+")
            return ["date", None]
        if c == ":":
            self.take(":[^:]*:")
            return ["bytes", None]
        if c in "-0123456789":
            t = self.take("-?[0-9.]+")
            return ["decimal", None] if "." in t else ["integer", int(t)]
        return ["token", self.take(TOKEN)]

    def params(self):
        out = {}
        while self.peek() == ";":
            self.pos += 1
            self.skip(" ")
            key = self.take(KEY)
            if key in out:
                self.repeated += 1
            if self.peek() == "=":
                self.pos += 1
                out[key] = self.bare()
            else:
                out[key] = ["boolean", True]
        return [[k, v] for k, v in out.items()]

    def item(self):
        v = self.bare()
        return [v, self.params()]

    def member(self):
        if self.peek() != "(":
            return self.item()
        self.pos += 1
        items = []
        while True:
            self.skip(" ")
            if self.peek() == ")":
                self.pos += 1
                return [["inner", items], self.params()]
            items.append(self.item())

    def read(self, kind):
        if kind == "item":
            return self.item()
        out = [] if kind == "list" else {}
        while self.pos < len(self.text):
            if kind == "list":
                out.append(self.member())
            else:
                key = self.take(KEY)
                if key in out:
                    self.repeated += 1
                if self.peek() == "=":
                    self.pos += 1
                    out[key] = self.member()
                else:
                    out[key] = [["boolean", True], self.params()]
            self.skip(" \t,")
        return out if kind == "list" else [[k, v] for k, v in out.items()]


def plain(value, kind):
    """What http_sf returns, in Reader's form."""
    if kind == "list":
        return [member(v) for v in value]
    if kind == "dictionary":
        return [[k, member(v)] for k, v in value.items()]
    return member(value)


def member(v):
    inner, params = v
    return [["inner", [member(i) for i in inner]] if isinstance(inner, list) else bare(inner), [[k, bare(p)] for k, p in params.items()]]


def bare(v):
    name = type(v).__name__
    if isinstance(v, bool):
        return ["boolean", v]
    if isinstance(v, int):
        return ["integer", v]
    if isinstance(v, str):
        return ["string", v]
    if isinstance(v, bytes):
        return ["bytes", None]
    if name == "Token":
        return ["token", str(v)]
    if name == "datetime":
        return ["date", None]
    return ["decimal", None]
