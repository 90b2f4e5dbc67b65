"""Shared helpers for the harnesses (executed symbolically, and natively on replay)."""
from httplint import HttpRequestLinter, HttpResponseLinter


def response(headers, status=b"200", start_time=1000000000, content=None, complete=True, trailers=None, base_uri="http://h.i/j", req=None, **kw):
    r = HttpResponseLinter(start_time=start_time, **kw)
    if req is not None:
        r.request = req
    r.base_uri = base_uri
    r.process_response_topline(b"HTTP/1.1", status, b"OK")
    r.process_headers(headers)
    if content is not None:
        r.feed_content(content)
    r.finish_content(complete, trailers)
    return r


def request(headers, method=b"GET", uri=b"http://example.com/", content=None, trailers=None, base_uri="http://h.i/j", **kw):
    r = HttpRequestLinter(start_time=1000000000, **kw)
    r.base_uri = base_uri
    r.process_request_topline(method, uri, b"HTTP/1.1")
    r.process_headers(headers)
    if content is not None:
        r.feed_content(content)
    r.finish_content(True, trailers)
    return r


def all_notes(msg):
    out = []
    stack = list(msg.notes)
    while stack:
        n = stack.pop(0)
        out.append(n)
        stack.extend(n.subnotes)
    return out


def names(msg):
    """(note class name, subject) pairs in order."""
    return [(type(n).__name__, n.subject) for n in msg.notes]


def has(msg, name):
    for n in msg.notes:
        if type(n).__name__ == name:
            return True
    return False


def count(msg, name):
    c = 0
    for n in msg.notes:
        if type(n).__name__ == name:
            c += 1
    return c


def find(msg, name):
    for n in msg.notes:
        if type(n).__name__ == name:
            return n
    return None


def window(inp, value, pos, delete, insert):
    """value with `delete` bytes at `pos` replaced by `insert` symbolic bytes."""
    return value[:pos] + inp.bytes("w", insert) + value[pos + delete:]


def all_names(msg):
    """The class names of all notes."""
    return [type(n).__name__ for n in all_notes(msg)]


def pick(inp, key, table, count):
    """Any members of a table; when many are asked for, the table again and again, from any place and in either direction."""
    if count < 5:
        return [inp.choice(key + str(i), table) for i in range(count)]
    start = inp.choice(key, range(len(table)))
    step = inp.choice(key + " step", [1, -1])
    return [table[(start + step * i) % len(table)] for i in range(count)]
