"""Runs the unmodified linter: records the regular expressions it uses, or times one field value.

  redos_native.py capture             -> JSON: [[pattern, flags, is_bytes, [[kind, field], ...]], ...]
  redos_native.py time KIND NAME HEX  -> seconds of CPU time taken by linting that value
"""
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(0, os.environ.get("SX_REPO", "/repo"))
sys.path.insert(1, os.path.dirname(HERE))

import re

USED = {}
WHERE = [None]
orig = re._compile


def recording(pattern, flags):
    p = pattern
    if isinstance(p, re.Pattern):
        p, f = p.pattern, p.flags
    else:
        f = flags if isinstance(flags, int) else flags.value
    key = (p, int(f), isinstance(p, bytes))
    USED.setdefault(key, set())
    if WHERE[0]:
        USED[key].add(WHERE[0])
    return orig(pattern, flags)


def lint(kind, name, value):
    from httplint import HttpRequestLinter, HttpResponseLinter

    if kind == "target":
        r = HttpRequestLinter(start_time=1000000000)
        r.process_request_topline(b"GET", value, b"HTTP/1.1")
        r.process_headers([])
    elif kind == "request":
        r = HttpRequestLinter(start_time=1000000000)
        r.process_request_topline(b"GET", b"http://example.com/", b"HTTP/1.1")
        r.process_headers([(name, value)])
    else:
        r = HttpResponseLinter(start_time=1000000000)
        r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
        r.process_headers([(name, value)])
    r.finish_content(True)


GENERIC = [b"a", b'"a"', b"*", b"a/b;c=d", b"a;b=c, d", b"Mon, 04 Jul 2011 09:08:06 GMT", b"=", b"(", b"1", b"\xe4", b'a; b="c', b'<a>; rel="b"; anchor="http://a/"; type="a/b"', b"a=b", b""]


def capture():
    re._compile = recording
    import httplint  # noqa: F401
    from harness import fields, seeds

    for name in fields.KNOWN:
        req = [n.lower() for n in fields.REQUEST_ONLY]
        kinds = ["request"] if name in req else ["response"]
        if name in seeds.REQUEST and name in seeds.RESPONSE:
            kinds = ["request", "response"]
        for kind in kinds:
            vals = list((seeds.REQUEST if kind == "request" else seeds.RESPONSE).get(name, [])) + GENERIC
            for v in vals:
                WHERE[0] = (kind, name)
                lint(kind, name.encode(), v)
                WHERE[0] = None
    for v in (b"http://a.b/c?d", b"/", b"*", b"a"):
        WHERE[0] = ("target", "")
        lint("target", b"", v)
        WHERE[0] = None
    out = []
    for (p, f, b), w in USED.items():
        if not w:
            continue
        out.append([p.decode("latin-1") if b else p, f, b, sorted(w)])
    return out


if __name__ == "__main__":
    if sys.argv[1] == "capture":
        json.dump(capture(), sys.stdout)
    else:
        kind, name, value = sys.argv[2], sys.argv[3].encode(), bytes.fromhex(sys.argv[4])
        import httplint  # noqa: F401

        lint(kind, name, b"")  # imports, caches
        resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
        t = time.process_time()
        lint(kind, name, value)
        print(time.process_time() - t)
