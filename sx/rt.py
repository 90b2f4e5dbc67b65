"""Runtime hooks called from instrumented code."""
import builtins
import collections
import functools
import operator
import re
import types
import decimal
import datetime

from . import rx
from .core import ENGINE, Unsupported, Infeasible
from .formula import And, Or, Not
from .values import (
    SymStr, SymBytes, SymByteArray, SymInt, SymBool, Opaque, is_sym, resolve, fork, bf, mkbool,
    mkseq, chars_of, seq_join, parse_int, int_to_str, mkbyte, HASH_OK, concretise, ch_map, ch_pred,
    ch_resolve, seq_eq, ch_in, byte_ch, Ch, fork_int, fork_values, model_int,
)

SYMS = (SymStr, SymBytes, SymInt, SymBool, SymByteArray, Opaque)
_SYMSET = frozenset(SYMS)


def symv(x):
    t = type(x)
    return t in _SYMSET or hasattr(t, "__sx_sym__")


def deep_sym(x, depth=4):
    t = type(x)
    if t in _SYMSET or hasattr(t, "__sx_sym__"):
        return True
    if depth and (t is list or t is tuple or t is set or t is frozenset):
        for i in x:
            if deep_sym(i, depth - 1):
                return True
    elif depth and t is dict:
        for k, v in x.items():
            if deep_sym(k, depth - 1) or deep_sym(v, depth - 1):
                return True
    elif isinstance(x, collections.UserString):
        return deep_sym(x.data, 1)
    return False


def symkey(k):
    t = type(k)
    if t is str or t is int or t is bytes or t is bool or k is None:
        return False
    if t in _SYMSET:
        return True
    if t is tuple:
        return any(symkey(i) for i in k)
    if isinstance(k, collections.UserString):
        return type(k.data) is not str and symkey(k.data)
    return False


# ----------------------------------------------------------------------------- dict / set


def _dirty(d):
    p = ENGINE.path
    if p is None:
        return False
    if len(d) <= 24:
        for k in d:
            if symkey(k):
                return True
        return False
    return id(d) in p.data.setdefault("dirty", {})


def _mark(d):
    ENGINE.path.data.setdefault("dirty", {})[id(d)] = d


def _cands(d, key):
    """Keys of d that may equal key, with the equality formula."""
    key = resolve(key)
    out = []
    kt = type(key)
    if kt is SymStr or kt is SymBytes:
        n = len(key.chars)
        is_str = kt is SymStr
        for k in d:
            tk = type(k)
            if tk is str or tk is bytes:
                if len(k) != n or (tk is str) != is_str:
                    continue
                f = seq_eq(key.chars, chars_of(k))
            elif tk is kt:
                f = True if k is key else (len(k.chars) == n and seq_eq(key.chars, k.chars))
            elif isinstance(k, collections.UserString):
                f = bf(k == key)
            else:
                continue
            if f is not False:
                out.append((k, f))
        return out
    for k in d:
        if k is key:
            return [(k, True)]
        if type(k) is str and kt is str:
            if k == key:
                return [(k, True)]
            continue
        r = k == key
        f = bf(r) if r is not NotImplemented else False
        if f is not False:
            out.append((k, f))
    return out


def d_find(d, key):
    """The stored key equal to `key`, or None (wrapped)."""
    for k, f in _cands(d, key):
        if fork(f):
            return (k,)
    return None


def d_contains(d, key):
    return mkbool(Or(*[f for _, f in _cands(d, key)]))


class _Hash:
    def __enter__(self):
        self.old = HASH_OK[0]
        HASH_OK[0] = True

    def __exit__(self, *a):
        HASH_OK[0] = self.old


_H = _Hash()


def _raw_get(d, k):
    old = HASH_OK[0]
    HASH_OK[0] = True
    try:
        return dict.__getitem__(d, k)
    finally:
        HASH_OK[0] = old


def _needs(d, key):
    return ENGINE.path is not None and (symkey(key) or _dirty(d))


def d_get(d, key, *default):
    key = resolve(key) if symv(key) else key
    if not _needs(d, key):
        return d[key] if not default else d.get(key, *default)
    cands = _cands(d, key)
    # group keys with the identical value: one decision per value
    groups = {}
    order = []
    for k, f in cands:
        v = _raw_get(d, k)
        g = groups.get(id(v))
        if g is None:
            groups[id(v)] = g = [v, []]
            order.append(g)
        g[1].append(f)
    for v, fs in order:
        if fork(Or(*fs)):
            return v
    if default:
        return default[0]
    m = getattr(type(d), "__missing__", None)
    if m is not None:
        if isinstance(d, collections.defaultdict):
            v = d.default_factory()
            d_set(d, key, v)
            return v
        return m(d, key)
    raise KeyError(key)


def d_set(d, key, value):
    key = resolve(key) if symv(key) else key
    if not _needs(d, key):
        d[key] = value
        return
    hit = d_find(d, key)
    k = hit[0] if hit else key
    old = HASH_OK[0]
    HASH_OK[0] = True
    try:
        dict.__setitem__(d, k, value)
    finally:
        HASH_OK[0] = old
    if symkey(k):
        _mark(d)


def d_del(d, key):
    key = resolve(key) if symv(key) else key
    if not _needs(d, key):
        del d[key]
        return
    hit = d_find(d, key)
    if not hit:
        raise KeyError(key)
    old = HASH_OK[0]
    HASH_OK[0] = True
    try:
        dict.__delitem__(d, hit[0])
    finally:
        HASH_OK[0] = old


def s_add(s, x):
    x = resolve(x) if symv(x) else x
    if not _needs(s, x):
        s.add(x)
        return
    if d_find(s, x):
        return
    old = HASH_OK[0]
    HASH_OK[0] = True
    try:
        set.add(s, x)
    finally:
        HASH_OK[0] = old
    if symkey(x):
        _mark(s)


def s_discard(s, x):
    if not _needs(s, x):
        s.discard(x)
        return True
    hit = d_find(s, x)
    if not hit:
        return False
    old = HASH_OK[0]
    HASH_OK[0] = True
    try:
        set.discard(s, hit[0])
    finally:
        HASH_OK[0] = old
    return True


def mkset(items):
    s = set()
    for x in items:
        s_add(s, x)
    return s


def mkdict(*items):
    d = {}
    for kind, k, v in items:
        if kind:
            for kk in k.keys():
                d_set(d, kk, d_get(k, kk) if isinstance(k, dict) else k[kk])
        else:
            d_set(d, k, v)
    return d


def dictcomp(gen):
    d = {}
    for k, v in gen:
        d_set(d, k, v)
    return d


def m_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if hasattr(src, "keys"):
            if type(src) is dict and not _dirty(src):
                d.update(src)
            else:
                for key in src.keys():
                    d_set(d, key, d_get(src, key) if isinstance(src, dict) else src[key])
        else:
            for key, v in src:
                d_set(d, key, v)
    d.update(k)
    return d


def m_set(*a):
    if not a:
        return set()
    return mkset(a[0])


def m_frozenset(*a):
    s = m_set(*a)
    old = HASH_OK[0]
    HASH_OK[0] = True
    try:
        r = frozenset(s)
    finally:
        HASH_OK[0] = old
    if any(symkey(x) for x in r):
        _mark(r)
    return r


def set_method(s, name, a, k):
    if name == "add":
        return s_add(s, *a)
    if name == "discard":
        s_discard(s, *a)
        return None
    if name == "remove":
        if not s_discard(s, *a):
            raise KeyError(a[0])
        return None
    if name == "update":
        for it in a:
            for x in it:
                s_add(s, x)
        return None
    if name == "copy":
        return mkset(s)
    if name == "union":
        r = mkset(s)
        for it in a:
            for x in it:
                s_add(r, x)
        return r
    if name == "intersection":
        r = set()
        for x in s:
            if all(bool(in_(x, list(it))) for it in a):
                s_add(r, x)
        return r
    if name == "difference":
        r = set()
        for x in s:
            if not any(bool(in_(x, list(it))) for it in a):
                s_add(r, x)
        return r
    if name == "symmetric_difference":
        o = mkset(a[0])
        r = set()
        for x in s:
            if not bool(in_(x, o)):
                s_add(r, x)
        for x in o:
            if not bool(in_(x, s)):
                s_add(r, x)
        return r
    if name == "issubset":
        o = list(a[0])
        return all(bool(in_(x, o)) for x in s)
    if name == "issuperset":
        return all(bool(in_(x, s)) for x in a[0])
    if name == "isdisjoint":
        return not any(bool(in_(x, s)) for x in a[0])
    if name in ("difference_update", "intersection_update"):
        r = set_method(s, name.replace("_update", ""), a, k)
        s.clear()
        for x in r:
            s_add(s, x)
        return None
    return getattr(s, name)(*a, **k)


def dict_method(d, name, a, k):
    if name == "get":
        return d_get(d, a[0], a[1] if len(a) > 1 else k.get("default"))
    if name == "__getitem__":
        return d_get(d, a[0])
    if name == "__contains__":
        return bool(in_(a[0], d))
    if name == "__setitem__":
        return d_set(d, *a)
    if name == "setdefault":
        key = a[0]
        if not bool(in_(key, d)):
            d_set(d, key, a[1] if len(a) > 1 else None)
        return d_get(d, key)
    if name == "pop":
        if not bool(in_(a[0], d)):
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        v = d_get(d, a[0])
        d_del(d, a[0])
        return v
    if name == "update":
        for src in a:
            if hasattr(src, "keys"):
                for kk in src.keys():
                    d_set(d, kk, d_get(src, kk) if isinstance(src, dict) else src[kk])
            else:
                for kk, v in src:
                    d_set(d, kk, v)
        for kk, v in k.items():
            d_set(d, kk, v)
        return None
    if name == "copy":
        r = d.copy()
        if _dirty(d):
            _mark(r)
        return r
    return getattr(d, name)(*a, **k)


# ----------------------------------------------------------------------------- operators


def in_(x, c):
    if ENGINE.path is None:
        return x in c
    t = type(c)
    if t in _SYMSET:
        if t is Opaque:
            raise Unsupported("in opaque text")
        return mkbool(c.contains_f(x))
    if t is str or t is bytes:
        if type(x) in _SYMSET:
            x = resolve(x)
            if type(x) in _SYMSET:
                return mkbool((SymStr if t is str else SymBytes)(chars_of(c)).contains_f(x))
        return x in c
    if t is bytearray:
        return x in c
    if isinstance(c, (dict, set, frozenset)) :
        if not _needs(c, x):
            return x in c
        return d_contains(c, x)
    if isinstance(c, collections.abc.KeysView):
        return in_(x, getattr(c, "mapping", list(c)))
    if t is list or t is tuple:
        if symv(x) or any(symv(i) for i in c):
            fs = []
            for i in c:
                if i is x:
                    return True
                r = i == x
                f = bf(r)
                if f is True:
                    return True
                fs.append(f)
            return mkbool(Or(*fs))
        return x in c
    return x in c


import collections.abc  # noqa: E402


def notin(x, c):
    r = in_(x, c)
    return mkbool(Not(r.f)) if type(r) is SymBool else not r


def is_(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return bool(a) is b
    if type(b) is SymBool and (a is True or a is False):
        return bool(b) is a
    return a is b


def isnot(a, b):
    return not is_(a, b)


def add(a, b):
    ta = type(a)
    if ENGINE.path is not None and type(b) in _SYMSET:
        if type(b) is Opaque and (ta is str or ta is SymStr):
            return Opaque("cat", (a, b))
        if ta is str or ta is bytes or ta is bytearray:
            return b.__radd__(a)
    return a + b


def mod(a, b):
    if ENGINE.path is not None and (type(a) is str or type(a) is bytes or type(a) is SymStr):
        if type(a) is SymStr:
            a = resolve(a)
            if type(a) is SymStr:
                return sym_format_template(a, b)
        if type(a) is str and deep_sym(b, 3):
            return percent_format(a, b)
        if type(a) is str and type(b) in (dict,) and any(
            isinstance(v, collections.UserString) for v in b.values()
        ):
            return percent_format(a, b)
    return a % b


def sym_format_template(a, b):
    # a '%' template with symbolic text: only if no symbolic character can be '%'
    for c in a.chars:
        if type(c) is not int and fork(ch_in(c, 1 << 37)):
            a = concretise(a)
            return mod(a, b)
    parts, lit, args = [], [], (b if isinstance(b, tuple) else (b,))
    # split into literal symbolic runs and specifiers
    out = []
    i = 0
    n = len(a.chars)
    pieces = []
    cur = []
    # placeholder technique: replace symbolic characters with private-use code points
    table = {}
    text = []
    for c in a.chars:
        if type(c) is int:
            text.append(chr(c))
        else:
            key = chr(0xE000 + len(table))
            table[key] = c
            text.append(key)
    r = percent_format("".join(text), b)
    cs = []
    for c in chars_of(r):
        cs.append(table.get(chr(c), c) if type(c) is int else c)
    return mkseq(cs, True)


_PCT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)", re.S)


def percent_format(fmt, args):
    out = []
    pos = 0
    mapping = args if isinstance(args, dict) else None
    seq = args if type(args) is tuple else (args,)
    idx = 0
    while True:
        i = fmt.find("%", pos)
        if i < 0:
            out.append(fmt[pos:])
            break
        out.append(fmt[pos:i])
        m = _PCT.match(fmt, i)
        if not m:
            raise ValueError("incomplete format")
        pos = m.end()
        conv = m.group("conv")
        if conv == "%":
            out.append("%")
            continue
        if m.group("key") is not None:
            if mapping is None:
                raise TypeError("format requires a mapping")
            v = d_get(mapping, m.group("key"))
        else:
            if mapping is not None and type(args) is not tuple:
                v = args
            else:
                if idx >= len(seq):
                    raise TypeError("not enough arguments for format string")
                v = seq[idx]
                idx += 1
        simple = not m.group("flags") and not m.group("width") and not m.group("prec")
        if conv == "s":
            s = m_str(v)
        elif conv == "r":
            s = m_repr(v)
        elif conv in "diu" and type(v) is SymInt:
            s = int_to_str(v) if simple else Opaque("fmt", (m.group(0), v))
        elif not deep_sym(v):
            spec = m.group(0) if m.group("key") is None else "%" + m.group(0)[m.group(0).index(")") + 1 :]
            s = spec % (v,)
        else:
            s = Opaque("fmt", (m.group(0), v))
        if not simple and conv in "sr" and not isinstance(s, Opaque):
            s = ("%" + (m.group("flags") or "") + (m.group("width") or "") + (("." + m.group("prec")) if m.group("prec") else "") + "s") % (
                s if not symv(s) else concretise(s)
            )
        out.append(s)
    if mapping is None and idx < len(seq) and not (len(seq) == 1 and idx == 0 and type(args) is not tuple and not isinstance(args, str) and hasattr(args, "__getitem__")):
        raise TypeError("not all arguments converted during string formatting")
    return cat(out)


def cat(parts):
    if any(type(p) is Opaque for p in parts):
        return Opaque("cat", tuple(parts))
    if any(symv(p) for p in parts):
        cs = []
        for p in parts:
            cs.extend(chars_of(p))
        return mkseq(cs, True)
    return "".join(parts)


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = m_repr(v)
        elif conv == 115:
            v = m_str(v)
        elif conv == 97:
            v = m_ascii(v)
        out.append(m_format(v, spec))
    return cat(out)


def m_format(v, spec=""):
    if ENGINE.path is None:
        return builtins.format(v, spec)
    if spec == "" and not symv(v):
        t = type(v)
        if t in (str, int, float, bool) or v is None:
            return builtins.format(v)
        f = type(v).__format__
        if f is object.__format__ or f is str.__format__ or isinstance(v, (collections.UserString, list, tuple, dict, set)):
            return m_str(v)
        return builtins.format(v, spec)
    if not symv(v):
        return builtins.format(v, spec)
    if spec == "":
        return m_str(v)
    v = resolve(v)
    if not symv(v):
        return builtins.format(v, spec)
    if type(v) is SymInt:
        if spec in ("d",):
            return int_to_str(v)
        if spec in ("02x", "02X") and v.ch is not None and type(v.ch) is Ch:
            hx = "0123456789abcdef" if spec == "02x" else "0123456789ABCDEF"
            return mkseq(
                [
                    ch_map(v.ch, lambda c: ord(hx[(c >> 4) & 15]), ("hexhi", spec)),
                    ch_map(v.ch, lambda c: ord(hx[c & 15]), ("hexlo", spec)),
                ],
                True,
            )
        return Opaque("fmt", (spec, v))
    return builtins.format(concretise(v), spec)


def m_str(*a, **k):
    if not a:
        return ""
    x = a[0]
    if len(a) > 1 or k:
        if type(x) in (SymBytes, SymByteArray):
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    t = type(x)
    if t is str:
        return x
    if t is SymStr:
        return x if x.sub is str else SymStr(x.chars)
    if t is Opaque:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return str(bool(x))
    if t is SymBytes:
        return m_repr(x)
    if ENGINE.path is None:
        return str(x)
    if isinstance(x, BaseException) and t.__str__ in (BaseException.__str__, KeyError.__str__):
        if len(x.args) == 1:
            return m_str(x.args[0]) if t.__str__ is BaseException.__str__ else m_repr(x.args[0])
        if not x.args:
            return ""
        return m_repr(x.args)
    if isinstance(x, OSError) and t.__str__ is OSError.__str__ and len(x.args) == 1:
        return m_str(x.args[0])
    f = t.__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    if f is object.__str__:
        return m_repr(x)
    return str(x)


def m_repr(x):
    t = type(x)
    if ENGINE.path is None:
        return repr(x)
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return str(bool(x))
    if t is SymStr:
        return seq_repr(x, "", [39])
    if t is SymBytes:
        return seq_repr(x, "b", [39])
    if t is Opaque:
        return Opaque("repr", (x,))
    if not deep_sym(x):
        return repr(x)
    if t is list:
        return cat(["["] + _sepd([m_repr(i) for i in x]) + ["]"])
    if t is tuple:
        return cat(["("] + _sepd([m_repr(i) for i in x]) + [",)" if len(x) == 1 else ")"])
    if t is dict:
        return cat(["{"] + _sepd([cat([m_repr(k), ": ", m_repr(v)]) for k, v in x.items()]) + ["}"])
    if t is set:
        return cat(["{"] + _sepd([m_repr(i) for i in x]) + ["}"])
    if isinstance(x, collections.UserString) and isinstance(t.__repr__, types.FunctionType):
        return t.__repr__(x) if t.__repr__ is not collections.UserString.__repr__ else m_repr(x.data)
    return repr(x)


def m_ascii(x):
    if symv(x):
        raise Unsupported("ascii()")
    return ascii(x)


def _sepd(l):
    out = []
    for i, x in enumerate(l):
        if i:
            out.append(", ")
        out.append(x)
    return out


_PLAIN = sum(1 << c for c in range(32, 127) if chr(c) not in "'\"\\")


def seq_repr(x, prefix, quote):
    for c in x.chars:
        if type(c) is not int or not (_PLAIN >> c & 1):
            if not fork(ch_in(c, _PLAIN)):
                return _repr_slow(x, prefix)
    return mkseq([ord(p) for p in prefix] + [39] + list(x.chars) + [39], True)


def _repr_slow(x, prefix):
    is_str = type(x) is SymStr
    has_sq = fork(Or(*[ch_in(c, 1 << 39) for c in x.chars]))
    has_dq = fork(Or(*[ch_in(c, 1 << 34) for c in x.chars]))
    q = 34 if has_sq and not has_dq else 39
    out = [ord(p) for p in prefix] + [q]
    from .values import concretise_char

    for c in x.chars:
        if fork(ch_in(c, _PLAIN)):
            out.append(c)
        elif fork(ch_in(c, 1 << 39)):
            out.extend([92, 39] if q == 39 else [39])
        elif fork(ch_in(c, 1 << 34)):
            out.append(34)
        elif fork(ch_in(c, 1 << 92)):
            out.extend([92, 92])
        elif is_str and fork(ch_pred(c, "isprintable", lambda v: chr(v).isprintable())):
            out.append(c)
        else:
            v = chars_of(concretise(SymStr([c]) if is_str else SymBytes([c])))[0]
            out.extend(map(ord, (repr(chr(v)) if is_str else repr(bytes([v]))[1:])[1:-1]))
    out.append(q)
    return mkseq(out, True)


def getitem(o, i):
    if ENGINE.path is None:
        return o[i]
    if isinstance(o, dict):
        return d_get(o, i)
    return o[i]


class _LV:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return d_get(self.d, k)

    def __setitem__(self, k, v):
        d_set(self.d, k, v)

    def __delitem__(self, k):
        d_del(self.d, k)


def lv(o):
    if ENGINE.path is not None and isinstance(o, dict):
        return _LV(o)
    return o


SET_ORDER = [False]


def it(x):
    """Iteration hook: with SET_ORDER on, the order of a set is a nondeterministic choice."""
    if SET_ORDER[0] and ENGINE.path is not None and type(x) in (set, frozenset) and len(x) > 1:
        return permute(x)
    return x


def permute(x):
    p = ENGINE.path
    items = list(x)
    try:
        items.sort(key=lambda v: (str(type(v)), v) if not symv(v) else ("~", 0))
    except TypeError:
        pass
    out = []
    while items:
        i = p.choose(len(items))
        out.append(items.pop(i))
    p.data["permuted"] = True
    return out


# ----------------------------------------------------------------------------- calls

_STRS = (str, SymStr)


def m_int(*a, **k):
    if not a:
        return 0
    x = a[0]
    t = type(x)
    if t is SymStr or t is SymBytes or t is SymByteArray:
        return parse_int(x, *a[1:], **k)
    if t is SymInt:
        return x
    if t is SymBool:
        return int(bool(x))
    if t is SymFloatish:
        return x.__trunc__()
    return int(*a, **k)


def m_bool(*a):
    if a and type(a[0]) is SymBool:
        return a[0]
    if a and type(a[0]) is SymInt:
        return a[0] != 0
    return bool(*a)


def m_float(*a):
    if a and symv(a[0]):
        if type(a[0]) is SymInt:
            return a[0]
        if type(a[0]) is SymStr:
            r = model_float(a[0])
            if r is not None:
                return r
        return float(concretise(a[0]))
    return float(*a)


def model_float(x):
    """float(str): exact about *whether* it parses and about integers; fractional values enumerated."""
    if not rx.do_match(r"[ \t\n\r\f\v]*[+-]?(\d+(_\d+)*\.?(\d+(_\d+)*)?|\.\d+(_\d+)*)([eE][+-]?\d+(_\d+)*)?[ \t\n\r\f\v]*", re.A, x, "fullmatch"):
        low = x.strip().lower()
        if bool(in_(low, ["inf", "+inf", "-inf", "nan", "+nan", "-nan", "infinity", "+infinity", "-infinity"])):
            return float(concretise(x))
        raise ValueError("could not convert string to float")
    if len(x) > 15:
        return float(concretise(x))
    if rx.do_match(r"[+-]?\d+", re.A, x, "fullmatch"):
        return parse_int(x)
    return SymFloatish.make(x)


class SymFloatish:
    """A value num/den with a symbolic integer numerator."""

    __sx_sym__ = True
    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    @property
    def __class__(self):
        return float

    @staticmethod
    def make(x):
        if bool(in_("e", x.lower())) or bool(in_("_", x)):
            return float(concretise(x))
        s = x.strip()
        neg = False
        if bool(s.startswith("-")):
            neg, s = True, s[1:]
        elif bool(s.startswith("+")):
            s = s[1:]
        a, _, b = s.partition(".") if symv(s) else str(s).partition(".")
        txt = add(a, b)
        num = m_int(txt) if len(txt) else 0
        n = len(b)
        if not symv(num):
            return float(str(concretise(x)))
        return SymFloatish(-num if neg else num, 10**n)

    def _cmp(self, o, op):
        if isinstance(o, SymFloatish):
            return op(self.num * o.den, o.num * self.den)
        if isinstance(o, float) and type(o) is float:
            from fractions import Fraction

            fr = Fraction(o)
            return op(self.num * fr.denominator, fr.numerator * self.den)
        if isinstance(o, int):
            return op(self.num, o * self.den)
        return NotImplemented

    def __neg__(self):
        return SymFloatish(-self.num, self.den)

    def __abs__(self):
        return self if bool(self.num >= 0) else -self

    def __trunc__(self):
        return self.num // self.den if bool(self.num >= 0) else -(-self.num // self.den)

    def __round__(self, n=None):
        """To the nearest integer, and to even ones (enumerated)."""
        if n is not None:
            raise Unsupported("round(symbolic float, n)")
        twice, two = 2 * self.num + self.den, 2 * self.den
        for r in fork_values(lambda m: model_int(twice, m) // two):
            low = twice - r * two
            if bool(low >= 0) and bool(low < two):
                break
        else:
            raise Unsupported("too many values for round()")
        if r % 2 and bool(low == 0):
            r -= 1
        return r

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __bool__(self):
        return bool(self.num != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __sx_model__(self, m):
        from .values import model_value

        return model_value(self.num, m) / self.den

    __sx_model__ = __sx_model__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"symbolic float .{n}")

    def is_integer(self):
        return self.num % self.den == 0


class SymDelta:
    """A timedelta of a symbolic number of whole seconds."""

    __sx_sym__ = True
    __slots__ = ("secs",)

    def __init__(self, secs):
        self.secs = secs

    @property
    def __class__(self):
        return datetime.timedelta

    days = property(lambda self: self.secs // 86400)
    seconds = property(lambda self: self.secs - 86400 * self.days)  # so that the two cancel out
    microseconds = 0

    def total_seconds(self):
        return self.secs

    def __abs__(self):
        return SymDelta(abs(self.secs))

    def __neg__(self):
        return SymDelta(-self.secs)

    def _cmp(self, o, op):
        if isinstance(o, SymDelta):
            return op(self.secs, o.secs)
        if type(o) is datetime.timedelta and not o.microseconds:
            return op(self.secs, o.days * 86400 + o.seconds)
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __bool__(self):
        return bool(self.secs != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic timedelta")


def m_timedelta(*a, **k):
    """datetime.timedelta, where harnesses ask for it (with rt.model); elsewhere, it's concretised."""
    if not a and list(k) == ["seconds"] and type(k["seconds"]) is SymInt:
        secs = k["seconds"]
        if bool(secs // 86400 > 999999999) or bool(secs // 86400 < -999999999):
            raise OverflowError("days")
        return SymDelta(secs)
    return datetime.timedelta(*[conc_deep(x) for x in a], **{n: conc_deep(v) for n, v in k.items()})


def m_len(x):
    f = getattr(type(x), "__sx_len__", None)
    if f is not None:
        return f(x)
    return len(x)


def m_ord(x):
    if type(x) is SymStr or type(x) is SymBytes:
        if len(x.chars) != 1:
            raise TypeError("ord() expected a character")
        c = ch_resolve(x.chars[0])
        return c if type(c) is int else SymInt(None, (), c)
    return ord(x)


def m_chr(x):
    if type(x) is SymInt:
        if x.ch is not None:
            return mkseq([x.ch], True)
        return chr(x.__index__())
    return chr(x)


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) in _SYMSET or hasattr(type(x), "__sx_sym__"):
            return x.__class__
        return type(x)
    return type(*a)


def m_bytes(*a, **k):
    if a:
        x = a[0]
        if type(x) in (SymBytes, SymByteArray):
            return mkseq(x.chars, False)
        if type(x) is SymStr:
            return x.encode(*a[1:], **k)
        if not isinstance(x, (int, str, bytes, bytearray, memoryview)):
            items = list(x)
            if any(symv(i) for i in items):
                return mkseq([byte_ch(i) for i in items], False)
            return bytes(items)
    return bytes(*a, **k)


def m_bytearray(*a, **k):
    if not a:
        return SymByteArray([])
    x = a[0]
    if type(x) in (SymBytes, SymByteArray):
        return SymByteArray(x.chars)
    if isinstance(x, (bytes, bytearray)):
        return SymByteArray(list(x))
    if isinstance(x, (list, tuple)):
        return SymByteArray([byte_ch(i) for i in x])
    if type(x) is str:
        return SymByteArray(list(bytes(x, *a[1:], **k)))
    return bytearray(*a, **k)


def m_hash(x):
    if symv(x):
        old = HASH_OK[0]
        if not old:
            raise Unsupported("hash of symbolic value")
        return hash(x)
    return hash(x)


def _attr_cands(o, name):
    name = resolve(name)
    if type(name) is not SymStr:
        return [name]
    n = len(name.chars)
    return [
        k for k in dir(o) if len(k) == n and seq_eq(name.chars, chars_of(k)) is not False
    ], name


def m_getattr(o, name, *d):
    name = resolve(name)
    if type(name) is not SymStr:
        return getattr(o, name, *d)
    cs, name = _attr_cands(o, name)
    for k in cs:
        if fork(seq_eq(name.chars, chars_of(k))):
            return getattr(o, k, *d)
    if d:
        return d[0]
    raise AttributeError("symbolic attribute")


def m_hasattr(o, name):
    name = resolve(name)
    if type(name) is not SymStr:
        return hasattr(o, name)
    cs, name = _attr_cands(o, name)
    return mkbool(Or(*[seq_eq(name.chars, chars_of(k)) for k in cs]))


def m_isinstance(x, c):
    return isinstance(x, c)


def m_re(mode):
    def f(pattern, string, flags=0):
        if symv(pattern):
            pattern = concretise_pattern(pattern)
        if not symv(string):
            return getattr(re, mode)(pattern, string, flags)
        string = resolve(string)
        if not symv(string):
            return getattr(re, mode)(pattern, string, flags)
        return rx.do_match(pattern, flags, string, mode)

    return f


def concretise_pattern(p):
    p = resolve(p)
    return concretise(p) if symv(p) else p


def m_findall(pattern, string, flags=0):
    string = resolve(string)
    return rx.do_findall(pattern, flags, string) if symv(string) else re.findall(pattern, string, flags)


def m_finditer(pattern, string, flags=0):
    string = resolve(string)
    return rx.do_finditer(pattern, flags, string) if symv(string) else re.finditer(pattern, string, flags)


def m_split(pattern, string, maxsplit=0, flags=0):
    string = resolve(string)
    return rx.do_split(pattern, flags, string, maxsplit) if symv(string) else re.split(pattern, string, maxsplit=maxsplit, flags=flags)


def m_sub(pattern, repl, string, count=0, flags=0):
    string = resolve(string)
    if symv(string):
        return rx.do_sub(pattern, flags, repl, string, count)
    if callable(repl):
        return rx.do_sub(pattern, flags, repl, string, count)
    if symv(repl):
        repl2 = repl
        return rx.do_sub(pattern, flags, lambda m: _lit_repl(repl2), string, count)
    return re.sub(pattern, repl, string, count=count, flags=flags)


def _lit_repl(r):
    for c in r.chars:
        if fork(ch_in(c, 1 << 92)):
            raise Unsupported("symbolic replacement template")
    return r


def m_escape(pattern):
    pattern = resolve(pattern)
    if not symv(pattern):
        return re.escape(pattern)
    raise Unsupported("re.escape of symbolic text")


_DBM = (0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def m_timegm(tup):
    """calendar.timegm for symbolic fields (year 1..9999, month forked)."""
    import calendar

    if not any(symv(x) for x in tup[:6]):
        return calendar.timegm(tup)
    year, month, day, hour, minute, second = tup[:6]
    if bool(year < 1) or bool(year > 9999):
        raise ValueError("year is out of range")
    if bool(month < 1) or bool(month > 12):
        raise ValueError("month must be in 1..12")
    month = int(month)
    y = year - 1
    days = y * 365 + y // 4 - y // 100 + y // 400 + _DBM[month]
    if month > 2:
        leap = (year % 4 == 0) and ((year % 100 != 0) or (year % 400 == 0))
        if leap:
            days = days + 1
    days = days + 1 - 719163 + day - 1
    return ((days * 24 + hour) * 60 + minute) * 60 + second


def m_monthrange(year, month):
    """calendar.monthrange; the weekday isn't modelled."""
    import calendar

    if not symv(year) and not symv(month):
        return calendar.monthrange(year, month)
    if bool(month < 1) or bool(month > 12):
        raise calendar.IllegalMonthError(int(month))
    month = int(month)
    if month != 2:
        return (Opaque("weekday", (year, month)), (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[month])
    leap = (year % 4 == 0) and ((year % 100 != 0) or (year % 400 == 0))
    return (Opaque("weekday", (year, month)), 29 if leap else 28)


def m_json_loads(s, **k):
    s = resolve(s)
    import json

    if not symv(s):
        return json.loads(s, **k)
    from . import jsonmodel

    return jsonmodel.loads(s)


def m_b2a_hex(data, *a):
    import binascii

    data = resolve(data)
    if not symv(data) or a:
        return binascii.b2a_hex(data, *a)
    return mkseq(data.hex().chars, False)


def m_fmtstr(f, val, grouping=False, monetary=False):
    import locale

    if type(val) is SymInt:
        return Opaque("locale", (f, val, bool(grouping)))
    return locale.format_string(f, val, grouping, monetary)


def m_sum(it_, start=0):
    tot = start
    for x in it_:
        tot = tot + x
    return tot


def m_print(*a, **k):
    if any(deep_sym(x) for x in a):
        return None
    return print(*a, **k)


def m_round(x, *n):
    if type(x) is SymInt and not n:
        return x
    if type(x) is SymFloatish:
        return x.__round__(*n)
    return round(x, *n)


def m_isprintable(x):
    return x.isprintable()


def m_list(*a):
    if a:
        return list(it(a[0]))
    return list()


def m_tuple(*a):
    if a:
        return tuple(it(a[0]))
    return tuple()


def m_iter(x, *a):
    return iter(it(x), *a) if not a else iter(x, *a)


def m_enumerate(x, start=0):
    return enumerate(it(x), start)


def m_map(f, *its):
    return map(lambda *a: call(f, *a), *[it(i) for i in its])


def m_filter(f, i):
    if f is None:
        return filter(None, it(i))
    return filter(lambda a: call(f, a), it(i))


def m_sorted(x, *, key=None, reverse=False):
    if key is not None:
        k0 = key
        key = lambda v: call(k0, v)
    return sorted(x, key=key, reverse=reverse)


def m_minmax(fn):
    def f(*a, **k):
        if "key" in k and k["key"] is not None:
            k0 = k["key"]
            k["key"] = lambda v: call(k0, v)
        return fn(*a, **k)

    return f


MODELS = {}


def model(f, m):
    MODELS[id(f)] = (m, f)


for _f, _m in [
    (int, m_int), (str, m_str), (bool, m_bool), (float, m_float), (len, m_len), (ord, m_ord),
    (chr, m_chr), (type, m_type), (bytes, m_bytes), (bytearray, m_bytearray), (dict, m_dict),
    (set, m_set), (frozenset, m_frozenset), (repr, m_repr), (hash, m_hash), (getattr, m_getattr),
    (hasattr, m_hasattr), (isinstance, m_isinstance), (format, m_format), (sum, m_sum),
    (print, m_print), (round, m_round), (list, m_list), (tuple, m_tuple), (iter, m_iter),
    (enumerate, m_enumerate), (map, m_map), (filter, m_filter), (sorted, m_sorted),
    (min, m_minmax(min)), (max, m_minmax(max)), (ascii, m_ascii),
    (re.match, m_re("match")), (re.fullmatch, m_re("fullmatch")), (re.search, m_re("search")),
    (re.findall, m_findall), (re.finditer, m_finditer), (re.split, m_split), (re.sub, m_sub),
    (re.escape, m_escape),
]:
    model(_f, _m)


def _late_models():
    import binascii
    import calendar
    import json
    import locale

    model(calendar.timegm, m_timegm)
    model(calendar.monthrange, m_monthrange)
    model(json.loads, m_json_loads)
    model(binascii.b2a_hex, m_b2a_hex)
    model(binascii.hexlify, m_b2a_hex)
    model(locale.format_string, m_fmtstr)


_late_models()

# builtins that work natively on symbolic arguments
SAFE = {
    id(f)
    for f in (
        abs, all, any, callable, divmod, id, issubclass, next, range, reversed, slice, zip, setattr,
        delattr, object, property, staticmethod, classmethod, super, functools.reduce, pow,
        operator.add, operator.eq, operator.sub, functools.partial,
    )
}
CONC_TYPES = {
    complex, decimal.Decimal, datetime.timedelta, datetime.datetime, datetime.date, datetime.time,
    memoryview,
}
PY_OK_MODULES = {
    "typing", "contextlib", "functools", "collections", "abc", "types", "enum", "dataclasses",
    "copy", "collections.abc", "typing_extensions", "_collections_abc", "weakref", "string",
}

UNMODELLED = collections.Counter()
BUILTIN_M = (types.BuiltinMethodType, type(re.compile("").match))


def conc_args(f, a, k):
    UNMODELLED[getattr(f, "__qualname__", repr(f))] += 1
    a2 = [conc_deep(x) for x in a]
    k2 = {n: conc_deep(v) for n, v in k.items()}
    return f(*a2, **k2)


def conc_deep(x):
    if symv(x):
        if hasattr(type(x), "__sx_conc__"):
            return x.__sx_conc__()
        return concretise(x)
    if type(x) in (list, tuple):
        return type(x)(conc_deep(i) for i in x)
    if type(x) is dict:
        return {conc_deep(k): conc_deep(v) for k, v in x.items()}
    return x


def call(f, /, *a, **k):
    if ENGINE.path is None:
        return f(*a, **k)
    m = MODELS.get(id(f))
    if m is not None:
        return m[0](*a, **k)
    tf = type(f)
    if tf is types.FunctionType:
        g = f.__globals__
        if "_sx" in g:
            return f(*a, **k)
        if any(symv(x) for x in a) or any(symv(x) for x in k.values()):
            if g.get("__name__") in PY_OK_MODULES or f.__name__ == "__init__" or g.get("__name__", "").startswith("sx"):
                return f(*a, **k)
            if f.__code__.co_filename.startswith("<"):
                return f(*a, **k)
            return conc_args(f, a, k)
        return f(*a, **k)
    if tf is types.MethodType:
        mm = MODELS.get(id(f.__func__))
        if mm is not None:
            return mm[0](f.__self__, *a, **k)
        g = getattr(f.__func__, "__globals__", None)
        if g is not None and "_sx" not in g and g.get("__name__") not in PY_OK_MODULES and (
            any(symv(x) for x in a) or any(symv(x) for x in k.values())
        ) and not g.get("__name__", "").startswith("sx") and not f.__func__.__code__.co_filename.startswith("<"):
            if not symv(f.__self__) and not isinstance(f.__self__, rx.SymMatch):
                return conc_args(f, a, k)
        return f(*a, **k)
    if tf is functools._lru_cache_wrapper:
        if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
            return call(f.__wrapped__, *a, **k)
        return f(*a, **k)
    if tf is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if tf is types.MethodWrapperType and f.__name__ == "__str__" and isinstance(f.__self__, BaseException):
        e = f.__self__
        return "" if not e.args else (m_str(e.args[0]) if len(e.args) == 1 else m_repr(e.args))
    if not (any(symv(x) for x in a) or any(symv(x) for x in k.values())):
        if tf in BUILTIN_M and isinstance(f.__self__, (str, dict, set)):
            return callm(f.__self__, f.__name__, *a, **k)
        return f(*a, **k)
    if isinstance(f, type):
        if f in CONC_TYPES:
            return conc_args(f, a, k)
        if issubclass(f, str) and len(a) == 1 and not k and type(a[0]) in (SymStr, Opaque):
            if type(a[0]) is Opaque:
                return a[0]
            r = SymStr(a[0].chars)
            r.sub = f
            return r
        return f(*a, **k)
    if id(f) in SAFE:
        return f(*a, **k)
    if tf in BUILTIN_M or tf is types.MethodWrapperType:
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType):
            if isinstance(s, (list, collections.deque, BaseException)):
                return f(*a, **k)
            if isinstance(s, (str, bytes, dict, set, frozenset, re.Pattern)):
                return callm(s, f.__name__, *a, **k)
        return conc_args(f, a, k)
    if tf is types.MethodDescriptorType or tf is types.WrapperDescriptorType:
        # e.g. str.strip(x)
        if a and isinstance(a[0], BaseException):
            return f(*a, **k)
        if a and (symv(a[0]) or isinstance(a[0], (str, bytes, dict, set, list))):
            return callm(a[0], f.__name__, *a[1:], **k)
        return conc_args(f, a, k)
    return f(*a, **k)


_SEQM = {str: SymStr, bytes: SymBytes}
_PATM = {"match", "fullmatch", "search"}


def callm(o, name, /, *a, **k):
    if ENGINE.path is None:
        return getattr(o, name)(*a, **k)
    t = type(o)
    if t is str or t is bytes:
        if name == "join":
            items = list(it(a[0]))
            if any(symv(x) for x in items):
                return seq_join(o, items)
            return o.join(items)
        if name == "format":
            if any(deep_sym(x) for x in a) or any(deep_sym(x) for x in k.values()):
                return brace_format(o, a, k)
            return o.format(*a, **k)
        if name in ("decode", "encode"):
            a = tuple([concretise(x) if symv(x) else x for x in a])
            k = {n: concretise(x) if symv(x) else x for n, x in k.items()}
        for x in a:
            if type(x) in _SYMSET or (type(x) is tuple and deep_sym(x)):
                return getattr(_SEQM[t](chars_of(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t in _SYMSET:
        if name == "format":
            raise Unsupported("symbolic format template")
        if name in ("decode", "encode"):
            a = tuple([concretise(x) if symv(x) else x for x in a])
            k = {n: concretise(x) if symv(x) else x for n, x in k.items()}
        return getattr(o, name)(*a, **k)
    if t is re.Pattern:
        if a and symv(a[0]) or name in ("sub", "subn"):
            if name in _PATM:
                s = resolve(a[0])
                if symv(s):
                    return rx.do_match(o, 0, s, name, *a[1:], **k)
                return getattr(o, name)(s, *a[1:], **k)
            if name == "findall":
                return m_findall(o, a[0])
            if name == "finditer":
                return m_finditer(o, a[0])
            if name == "split":
                s = resolve(a[0])
                return rx.do_split(o, 0, s, *a[1:], **k) if symv(s) else o.split(s, *a[1:], **k)
            if name == "sub":
                s = resolve(a[1])
                if symv(s) or symv(a[0]) or callable(a[0]):
                    return rx.do_sub(o, 0, a[0], s, *a[2:], **k)
                return o.sub(*a, **k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, dict):
        f = getattr(t, name, None)
        if not isinstance(f, types.FunctionType):
            if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__"):
                if a and (symkey(a[0]) or _dirty(o)):
                    return dict_method(o, name, a, k)
                return getattr(o, name)(*a, **k)
            if name in ("update", "copy"):
                return dict_method(o, name, a, k)
        return call(getattr(o, name), *a, **k) if isinstance(f, types.FunctionType) else getattr(o, name)(*a, **k)
    if t is set or t is frozenset:
        if name == "pop" and SET_ORDER[0] and len(o) > 1:
            v = permute(o)[0]
            s_discard(o, v)
            return v
        if name in ("clear", "pop"):
            return getattr(o, name)(*a)
        return set_method(o, name, a, k)
    if t is type and name == "fromkeys" and issubclass(o, dict):
        d = o()
        for kk in it(a[0]):
            d_set(d, kk, a[1] if len(a) > 1 else None)
        return d
    if t is list:
        if name == "sort":
            if k.get("key") is not None:
                k0 = k["key"]
                k["key"] = lambda v: call(k0, v)
        elif name == "extend" and a:
            return o.extend(it(a[0]))
        return getattr(o, name)(*a, **k)
    f = getattr(o, name)
    return call(f, *a, **k)


_BR = re.compile(r"\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::([^{}]*))?\}")


def brace_format(fmt, a, k):
    if type(fmt) is not str:
        raise Unsupported("format")
    out, pos, auto = [], 0, 0
    for m in _BR.finditer(fmt):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        g = m.group(0)
        if g in ("{{", "}}"):
            out.append(g[0])
            continue
        name = m.group(1)
        head = re.match(r"[^.\[]*", name).group(0)
        rest = name[len(head) :]
        if head == "":
            v = a[auto]
            auto += 1
        elif head.isdigit():
            v = a[int(head)]
        else:
            v = k[head]
        for acc in re.findall(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
            v = getattr(v, acc[0]) if acc[0] else getitem(v, int(acc[1]) if acc[1].isdigit() else acc[1])
        if m.group(2) == "r":
            v = m_repr(v)
        elif m.group(2) == "s":
            v = m_str(v)
        out.append(m_format(v, m.group(3) or ""))
    out.append(fmt[pos:])
    return cat(out)
