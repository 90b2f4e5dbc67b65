"""json.loads over symbolic text, using the stdlib's own pure-Python decoder (instrumented)."""
import sys


def loads(s):
    dec = sys.modules["json.decoder"]
    scan = sys.modules["json.scanner"]
    dec.scanstring = dec.py_scanstring
    d = dec.JSONDecoder()
    d.parse_string = dec.py_scanstring
    d.scan_once = scan.py_make_scanner(d)
    try:
        return d.decode(s)
    except dec.JSONDecodeError as e:  # the C decoder, which it'd be without instrumentation, words these differently
        for msg in ("Invalid control character at", "Invalid \\escape"):
            if e.msg[:len(msg) - 2] == msg[:-2] and len(e.msg) > len(msg):
                raise dec.JSONDecodeError(msg, s, e.pos - 1)
        raise
