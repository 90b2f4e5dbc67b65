"""A model of markdown.Markdown.convert over symbolic text.

Only what decides whether text ends up inside a code span or block is modelled: blocks, lists,
indented code and backtick runs. Inside code `&`, `<`, `>` are escaped; elsewhere text is kept.
Every explored path's model is also replayed with the real library, and the results compared."""
from .core import Unsupported
from .values import Opaque, SymStr, ch_in, chars_of, fork, mkseq, resolve

NL = (1 << 10) | (1 << 13)
TICK = 1 << 96
BLANK = (1 << 32) | (1 << 9)
DROP = (1 << 2) | (1 << 3)
SLASH = 1 << 92
BULLETS = (1 << 42) | (1 << 43) | (1 << 45)

ESC = {60: "&lt;", 62: "&gt;", 38: "&amp;"}


def _is(c, mask):
    if type(c) is int:
        return bool(mask >> c & 1)
    return fork(ch_in(c, mask))


def flatten(x):
    """Characters of a text, with numbers of unknown value as a digit."""
    if type(x) is Opaque:
        if x.kind in ("cat",):
            out = []
            for p in x.args:
                out.extend(flatten(p))
            return out
        if x.kind in ("locale", "fmt"):
            return [48]
        raise Unsupported("opaque text in Markdown: " + x.kind)
    return list(chars_of(x))


def lines_of(cs):
    """Split into lines, with the characters the preprocessor drops removed."""
    lines, cur = [], []
    i, n = 0, len(cs)
    while i < n:
        c = cs[i]
        if type(c) is int and c not in (2, 3, 10, 13):
            cur.append(c)
        elif _is(c, NL):
            lines.append(cur)
            cur = []
            if i + 1 < n and _is(c, 1 << 13) and _is(cs[i + 1], 1 << 10):
                i += 1
        elif not _is(c, DROP):
            cur.append(c)
        i += 1
    lines.append(cur)
    return lines


def blank(line):
    for c in line:
        if type(c) is int and c not in (32, 9):
            return False
    return all(_is(c, BLANK) for c in line)


def indent(line):
    """Width of the indentation, and how many characters make it up (at most 4 columns)."""
    w = k = 0
    for c in line:
        if w >= 4:
            break
        if type(c) is int:
            if c == 32:
                w += 1
            elif c == 9:
                w = 4
            else:
                break
        elif _is(c, 1 << 32):
            w += 1
        elif _is(c, 1 << 9):
            w = 4
        else:
            break
        k += 1
    return w, k


def bullet(line):
    """Is this line the start of a list item?"""
    w, k = indent(line)
    if w >= 4:
        return False
    rest = line[k:]
    if not rest:
        return False
    if _is(rest[0], BULLETS):
        return len(rest) > 1 and _is(rest[1], 1 << 32)
    if type(rest[0]) is int and 48 <= rest[0] <= 57:
        j = 0
        while j < len(rest) and type(rest[j]) is int and 48 <= rest[j] <= 57:
            j += 1
        return j + 1 < len(rest) and rest[j] == 46 and rest[j + 1] == 32
    return False


def code(cs, out):
    for c in cs:
        if type(c) is int and c in ESC:
            out.extend(map(ord, ESC[c]))
        else:
            out.append(c)


def inline(cs, out):
    i, n = 0, len(cs)
    ticks = [(c == 96) if type(c) is int else _is(c, TICK) for c in cs]
    while i < n:
        if not ticks[i] or (i and _is(cs[i - 1], SLASH)):
            out.append(cs[i])
            i += 1
            continue
        run = 1
        while i + run < n and ticks[i + run]:
            run += 1
        done = False
        for k in range(run, 0, -1):
            j = i + k + 1
            while j < n:
                if ticks[j] and not ticks[j - 1]:
                    e = j
                    while e < n and ticks[e]:
                        e += 1
                    if e - j == k:
                        code(cs[i + k : j], out)
                        i = e
                        done = True
                        break
                    j = e
                j += 1
            if done:
                break
        if not done:
            out.extend(cs[i : i + run])
            i += run


def dedent(line):
    w, k = indent(line)
    return line[k:] if w >= 4 else line


def convert(cs):
    out = []
    lines = lines_of(cs)
    block, in_list = [], False
    blocks = []
    for ln in lines + [[]]:
        if blank(ln):
            if block:
                blocks.append(block)
            block = []
        else:
            block.append(ln)
    render(blocks, out)
    return out


def render(blocks, out):
    in_list = False
    for b in blocks:
        if indent(b[0])[0] >= 4:
            if in_list:
                render([[dedent(x) for x in b]], out)
                continue
            i = 0
            while i < len(b) and indent(b[i])[0] >= 4:
                code(dedent(b[i]) + [10], out)
                i += 1
            if i < len(b):
                para(b[i:], out)
        elif bullet(b[0]):
            in_list = True
            item = []
            for ln in b:
                if bullet(ln) and item:
                    para(item, out)
                    item = []
                item.append(ln)
            para(item, out)
        else:
            in_list = False
            para(b, out)


def para(lines, out):
    cs = []
    for i, ln in enumerate(lines):
        if i:
            cs.append(10)
        cs.extend(ln)
    inline(cs, out)
    out.append(10)


class Markdown:
    def __init__(self, *a, **k):
        pass

    def reset(self):
        return self

    def convert(self, text):
        return mkseq(convert(flatten(resolve(text))), True)


def install():
    """Use the model in place of the library, in symbolic runs."""
    import markdown
    import markupsafe

    from . import rt

    rt.model(markdown.Markdown, Markdown)
    rt.model(markupsafe.Markup, lambda x="", *a, **k: x)
