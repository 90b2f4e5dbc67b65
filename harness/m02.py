"""M02: content is decoded as Content-Encoding says, or reported."""
import zlib
from hashlib import md5

import brotli

from harness import lib
from harness.lib import HttpResponseLinter

TEXT = b"It was the best of times, it was the worst of times, it was the age of wisdom, it was the age of foolishness"
BAD = ["BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT"]


def deflated(data):
    c = zlib.compressobj(9, zlib.DEFLATED, -zlib.MAX_WBITS)
    return c.compress(data) + c.flush()


def trailer(data):
    return zlib.crc32(data).to_bytes(4, "little") + (len(data) % (1 << 32)).to_bytes(4, "little")


def gzipped(data):
    return b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff" + deflated(data) + trailer(data)


def lint(inp, codings, chunks):
    r = HttpResponseLinter(start_time=1000000000)
    r.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    r.process_headers([(b"Content-Encoding", c) for c in codings])
    for c in chunks:
        r.feed_content(c)
    r.finish_content(True)
    return r


def divided(inp, data, cuts):
    """The content in up to three chunks."""
    a = inp.choice("a", [x for x in cuts if x <= len(data)])
    b = inp.choice("b", [x for x in cuts if a <= x <= len(data)])
    return [data[:a], data[a:b], data[b:]]


def problems(r):
    return [type(n).__name__ for n in r.notes if type(n).__name__ in BAD]


def decoded(chk, r, data):
    chk.eq([r.decoded.length, r.decoded.hash, r.content_sample], [len(data), md5(data).digest(), data[:8192]], "the decoded content is what was encoded")


def header(inp, chk, flags, nx, nn, nc, cut):
    """Any gzip header: all flags, any extra field, file name, comment and checksum of some lengths."""
    head = b"\x1f\x8b\x08" + bytes([flags]) + inp.bytes("rest", 6)
    if flags & 4:
        head = head + bytes([nx, 0]) + inp.bytes("extra", nx)
    if flags & 8:
        head = head + inp.bytes("name", nn, alphabet=[c for c in range(1, 256)]) + b"\0"
    if flags & 16:
        head = head + inp.bytes("comment", nc, alphabet=[c for c in range(1, 256)]) + b"\0"
    if flags & 2:
        head = head + inp.bytes("crc", 2)
    data = head + deflated(TEXT) + trailer(TEXT)
    # each way to divide the header
    at = inp.choice("at", range(0, len(head) + 2)) if cut else 0
    two = inp.choice("two", [at, at + 1, len(head) + 3]) if cut else 0
    inp.assume(two >= at)
    r = lint(inp, [b"gzip"], [data[:at], data[at:two], data[two:]])
    chk.eq(problems(r), [], "valid gzip headers are accepted")
    decoded(chk, r, TEXT)
    chk.reach("header")


LONG = [0, 1, 255, 256, 257, 511, 512, 1000, 8192, 65535]


def longheader(inp, chk, flags):
    """Gzip headers with long extra fields, file names and comments, in any two chunks."""
    head = b"\x1f\x8b\x08" + bytes([flags]) + inp.bytes("rest", 6)
    nx = inp.choice("extra", LONG) if flags & 4 else 0
    nn = inp.choice("name", [0, 256, 1000]) if flags & 8 else 0
    nc = inp.choice("comment", [0, 300]) if flags & 16 else 0
    if flags & 4:
        # what it contains could be a header's end, or compressed data
        fill = inp.choice("fill", [b"\0", b"x"])
        head = head + nx.to_bytes(2, "little") + fill * nx
    if flags & 8:
        head = head + b"n" * nn + b"\0"
    if flags & 16:
        head = head + b"c" * nc + b"\0"
    if flags & 2:
        head = head + inp.bytes("crc", 2)
    data = head + deflated(TEXT) + trailer(TEXT)
    at = inp.choice("at", [0, 10, 11, 12, 200, 8200, len(head) - 1, len(head), len(head) + 1])
    r = lint(inp, [b"gzip"], [data[:at], data[at:]])
    chk.eq(problems(r), [], "valid gzip headers are accepted, however long")
    decoded(chk, r, TEXT)
    chk.reach("long-header")


def magic(inp, chk, n):
    """Any first bytes."""
    first = inp.bytes("first", n)
    valid = first == (b"\x1f\x8b\x08\x00" + bytes(20))[:n]
    data = first + (b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff" + deflated(TEXT) + trailer(TEXT))[n:]
    if n == 4:
        inp.assume(first[3] & 30 == 0)  # fields that flags announce are header()'s
        valid = first[:3] == b"\x1f\x8b\x08"
    r = lint(inp, [b"gzip"], [data[:9], data[9:]])
    chk.eq(problems(r), [] if valid else ["BAD_GZIP"], "what isn't a gzip header is reported, once")
    if valid:
        decoded(chk, r, TEXT)
        chk.reach("magic")
    else:
        chk.eq(r.decoded.length, 0, "nothing is decoded")
        chk.reach("bad")


def short(inp, chk, k):
    """A header that doesn't end."""
    data = (b"\x1f\x8b\x08\x1e" + bytes(6) + b"\x02\x00ab" + b"name\0comment\0" + b"cc")
    n = inp.choice("n", range(0, len(data) + 1))
    r = lint(inp, [b"gzip"], [data[:k], data[k:n]] if n > k else [data[:n]])
    chk.eq(problems(r), [], "an incomplete header isn't an invalid one")
    chk.eq(r.decoded.length, 0, "nothing is decoded")
    chk.reach("short")


ENCODERS = {"gzip": gzipped, "x-gzip": gzipped, "br": brotli.compress, "identity": lambda data: data}
FOREIGN = ["deflate", "zstd", "compress", "dcb", "foo"]


def codings(inp, chk, count, layout):
    """Up to three codings, in the order they were applied, on the same or different lines."""
    names = [inp.choice("coding" + str(i), ["gzip", "x-gzip", "br", "identity", "foreign"]) for i in range(count)]
    text = TEXT if inp.bool("text") else b"a" * 9000
    data = text
    known = True
    foreign = inp.choice("foreign", FOREIGN if count == 1 else FOREIGN[:1]) if "foreign" in names else ""
    upper = inp.bool("upper")
    wire = []
    for n in names:
        if n == "foreign":
            known = False
            data = bytes([x ^ 0x55 for x in data[:200]])
            n = foreign
        else:
            data = ENCODERS[n](data)
        wire.append(n.upper() if upper and len(wire) == 0 else n)
    cuts = [0, 1, 9, 10, 11, 30, len(data) // 2, len(data) - 9, len(data) - 1, len(data)] if known else [0, 1, 10, len(data)]
    lines = [", ".join(wire).encode()] if layout == 0 else [w.encode() for w in wire] if layout == 1 else [(", ".join(wire[:1]) + ",").encode(), ",".join(wire[1:]).encode()]
    r = lint(inp, lines, divided(inp, data, [c for c in cuts if c >= 0]))
    chk.eq(problems(r), [], "content that can be decoded, or not be judged, isn't reported")
    chk.eq([r.content_length, r.content_hash], [len(data), md5(data).digest()], "the content itself is counted encoded")
    if known:
        decoded(chk, r, text)
        chk.reach("decoded")
    else:
        chk.eq([r.decoded.length, r.content_sample], [0, b""], "content with an unknown coding isn't decoded")
        chk.eq(r.decoded.decode_ok, False, "an unknown coding is noticed")
        chk.reach("unknown")


def reference(name, chunks):
    """What's decoded of the chunks, and whether that fails."""
    done = 0
    if name == "br":
        d = brotli.Decompressor()
        for c in chunks:
            try:
                done += len(d.process(c))
            except brotli.error:
                return done, True
        return done, False
    d = zlib.decompressobj(-zlib.MAX_WBITS)
    first = True
    head = b""
    for c in chunks:
        if first:
            head = head + c
            if len(head) < 10:
                continue
            c = head[10:]
            first = False
        try:
            done += len(d.decompress(c))
        except zlib.error:
            return done, True
    return done, False


def corrupt(inp, chk, name, by):
    """Valid content with one byte changed, anywhere."""
    data = ENCODERS[name](TEXT)
    lo = 10 if name == "gzip" else 0
    hi = len(data) - 8 if name == "gzip" else len(data)
    at = inp.choice("at", range(lo, hi))
    data = data[:at] + bytes([data[at] ^ by]) + data[at + 1:]
    size = inp.choice("size", [1, 7, 20, 1000])
    chunks = [data[i:i + size] for i in range(0, len(data), size)]
    r = lint(inp, [name.encode()], chunks)
    want, fails = reference(name, chunks)
    chk.eq(problems(r), [{"br": "BAD_BROTLI", "gzip": "BAD_ZLIB"}[name]] if fails else [], "corrupt content is reported, once, and no other")
    chk.eq(r.decoded.length, want, "what's decoded before that is kept")
    if fails:
        n = lib.find(r, "BAD_BROTLI" if name == "br" else "BAD_ZLIB")
        chk.eq(n.vars["ok_brotli_len" if name == "br" else "ok_zlib_len"], str(want), "the number of bytes decoded is right")
        chk.reach("corrupt")


LIMIT = 100 * 1024 * 1024
ZEROES = {}


def zeroes(name, n):
    if (name, n) not in ZEROES:
        ZEROES[name, n] = brotli.compress(bytes(n), quality=2) if name == "br" else gzipped(bytes(n))
    return ZEROES[name, n]


def limit(inp, chk, name, n):
    """Content that decodes to about the limit."""
    data = zeroes(name, n)
    size = inp.choice("size", [4000, 100000]) if name == "gzip" else 100000
    r = lint(inp, [name.encode()], [data[i:i + size] for i in range(0, len(data), size)])
    chk.eq(problems(r), ["DECOMPRESSION_LIMIT"] if n > LIMIT else [], "content that decodes to more than the limit is reported, once, and no other")
    if n <= LIMIT:
        chk.eq(r.decoded.length, n, "content within the limit is decoded")
    else:
        chk(r.decoded.length <= LIMIT, "no more than the limit is processed")
        chk.reach("limit")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for flags in range(32):
        for nx, nn, nc in [(0, 0, 0), (2, 2, 1)] + ([(3, 3, 4), (1, 0, 5)] if deep else []):
            if (nx or nn or nc) and not flags & 28:
                continue
            out.append(dict(func="header", params=dict(flags=flags, nx=nx, nn=nn, nc=nc, cut=True)))
    for flags in (4, 8, 16, 12, 6, 10) + ((20, 24, 28, 30) if deep else ()):
        out.append(dict(func="longheader", params=dict(flags=flags), weight=5))
    for n in (1, 2, 3, 4):
        out.append(dict(func="magic", params=dict(n=n)))
    for k in (0, 3, 10, 11, 15, 20):
        out.append(dict(func="short", params=dict(k=k)))
    for count in (1, 2, 3) if deep else (1, 2):
        for layout in (0, 1, 2) if count > 1 else (0,):
            out.append(dict(func="codings", params=dict(count=count, layout=layout), weight=20))
    for name in ("gzip", "br"):
        for by in (1, 2, 4, 8, 16, 32, 64, 128, 255) if deep else (1, 16, 255):
            out.append(dict(func="corrupt", params=dict(name=name, by=by), weight=2))
        for n in (LIMIT, LIMIT + 1):
            out.append(dict(func="limit", params=dict(name=name, n=n), weight=10000))
    return out


BUDGET = {"quick": 300, "thorough": 900}
CONTINUE = True
MUST_REACH = ["header", "long-header", "magic", "bad", "short", "decoded", "unknown", "corrupt", "limit"]
BOUNDS = {
    "quick": "gzip headers with all flags, fields of up to 2 arbitrary bytes, and any division into chunks; extra fields of up to 65535 bytes, names and comments of up to 1000; any first 4 bytes; any 2 of five kinds of coding in three layouts, divided at 10 places; compressed content with any one byte changed in 3 ways, in chunks of 4 sizes; content of the limit (100 MB), and of one byte more",
    "thorough": "the same with fields of up to 5 bytes, 3 codings, and bytes changed in 9 ways",
}
OUTSIDE = "the decompressors themselves (zlib's and brotli's C code, run on concrete content); truncated content and several gzip members, which aren't reported; memory used by brotli for one chunk"
ASSUMPTIONS = []
