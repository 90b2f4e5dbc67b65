"""Symbolic values: SymInt, SymBool, SymStr, SymBytes (and bytearray), built over core.Path."""
import z3
from .formula import FULL, Atom, Z, Not, And, Or, Nary, simplify, fvars, to_z3
from . import core
from .core import Unsupported, ENGINE

# ----------------------------------------------------------------------------- characters
# A character is an int (code point), a Ch (a byte variable, possibly mapped through a table) or a
# DCh (a decimal digit of an integer expression).


class Ch:
    __slots__ = ("var", "table", "_pre")

    def __init__(self, var, table=None):
        self.var = var
        self.table = table

    def values(self):
        d = ENGINE.path.dom.get(self.var, FULL)
        t = self.table
        out = set()
        while d:
            low = d & -d
            i = low.bit_length() - 1
            out.add(t[i] if t is not None else i)
            d ^= low
        return out


class DCh:
    """Digit number k (0 = least significant) of the non-negative integer expression n."""

    __slots__ = ("n", "k", "vars", "single")

    def __init__(self, n, k, vars_=(), single=False):
        self.n = n
        self.k = k
        self.vars = vars_
        self.single = single  # n is known to be < 10

    def digit(self):
        if self.k == 0 and self.single:
            return self.n
        e = self.n if self.k == 0 else self.n / (10**self.k)
        return e % 10


_pre_cache = {}


def ch_pre(ch, pred_key, pred):
    """Mask over the base variable of the values satisfying pred (memoised by key)."""
    key = (ch.table, pred_key)
    m = _pre_cache.get(key)
    if m is None:
        m = 0
        t = ch.table
        for i in range(256):
            if pred(t[i] if t is not None else i):
                m |= 1 << i
        _pre_cache[key] = m
    return m


DIGIT_MASK = sum(1 << c for c in range(48, 58))


def ch_in(ch, mask):
    """Formula: the character is in the set `mask` (bitmask over code points)."""
    if type(ch) is int:
        return bool(mask >> ch & 1)
    if type(ch) is Ch:
        if ch.table is None:
            m = mask & FULL
        else:
            m = ch_pre(ch, mask, lambda v: mask >> v & 1)
        d = ENGINE.path.dom.get(ch.var, FULL)
        if not d & m:
            return False
        if not d & ~m:
            return True
        return Atom(ch.var, m)
    m = mask & DIGIT_MASK
    if not m:
        return False
    if m == DIGIT_MASK:
        return True
    d = ch.digit()
    return Z(z3.Or(*[d == (c - 48) for c in range(48, 58) if m >> c & 1]), ch.vars)


def ch_z(ch):
    """z3 BitVec(16) of the character."""
    if type(ch) is int:
        return z3.BitVecVal(ch, 16)
    if type(ch) is Ch:
        z = z3.ZeroExt(8, ch.var.z)
        if ch.table is None:
            return z
        return _table_z(z, ch.var, ch.table)
    raise Unsupported("digit char to bitvector")


_table_cache = {}


def _table_z(z, var, table):
    key = (var.name, table)
    got = _table_cache.get(key)
    if got is None:
        groups = {}
        for i in range(256):
            groups.setdefault(table[i] - i, 0)
            groups[table[i] - i] |= 1 << i
        e = z
        from .formula import atom_z3

        if len(groups) <= 40:
            for delta, m in groups.items():
                if delta:
                    e = z3.If(atom_z3(var, m), z + z3.BitVecVal(delta & 0xFFFF, 16), e)
        else:
            for i in range(256):
                if table[i] != i:
                    e = z3.If(z == i, z3.BitVecVal(table[i] & 0xFFFF, 16), e)
        got = _table_cache[key] = e
    return got


def ch_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return a == b
    if ta is int:
        return ch_in(b, 1 << a)
    if tb is int:
        return ch_in(a, 1 << b)
    if ta is Ch and tb is Ch:
        if a.var is b.var and a.table == b.table:
            return True
        if not (a.values() & b.values()):
            return False
        return Z(ch_z(a) == ch_z(b), (a.var, b.var))
    if ta is DCh and tb is DCh:
        if a.k == b.k and (a.n is b.n or a.n.eq(b.n)):
            return True
        return Z(a.digit() == b.digit(), tuple(a.vars) + tuple(b.vars))
    if ta is DCh:
        a, b = b, a
    # Ch vs DCh
    fs = []
    for d in range(10):
        fs.append(And(ch_in(a, 1 << (48 + d)), ch_in(b, 1 << (48 + d))))
    return Or(*fs)


def ch_lt(a, b):
    """a < b as formula."""
    if type(a) is int and type(b) is int:
        return a < b
    if type(b) is int:
        return ch_in(a, (1 << b) - 1)
    if type(a) is int:
        return ch_in(b, ~((1 << (a + 1)) - 1) & ((1 << 0x300) - 1))
    if type(a) is Ch and type(b) is Ch:
        return Z(z3.ULT(ch_z(a), ch_z(b)), (a.var, b.var))
    raise Unsupported("ordering of digit characters")


def ch_map(ch, fn, key):
    if type(ch) is int:
        return fn(ch)
    if type(ch) is DCh:
        vals = {fn(c) for c in range(48, 58)}
        if all(fn(c) == c for c in range(48, 58)):
            return ch
        raise Unsupported("map of digit character")
    t = _map_table(ch.table, fn, key)
    if t is None:
        return ch
    return Ch(ch.var, t)


_tables = {}


def _map_table(table, fn, key):
    k = (table, key)
    if k not in _tables:
        t = tuple(fn(table[i] if table is not None else i) for i in range(256))
        if t == tuple(range(256)):
            t = None
        _tables[k] = t
    return _tables[k]


def ch_resolve(ch):
    """Concrete code point if the domain determines it, else the character."""
    if type(ch) is Ch:
        d = ENGINE.path.dom.get(ch.var, FULL)
        if ch.table is None:
            if d & (d - 1) == 0:
                return d.bit_length() - 1
            return ch
        if d.bit_count() <= 8:
            vs = ch.values()
            if len(vs) == 1:
                return next(iter(vs))
    return ch


def fork(f):
    if f is True or f is False:
        return f
    return ENGINE.path.fork(f)


# ----------------------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("f", "_v")

    def __init__(self, f):
        self.f = f
        self._v = None

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        if self._v is None:
            self._v = fork(self.f)
        return self._v

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return mkbool(Or(And(self.f, other.f), And(Not(self.f), Not(other.f))))
        if other is True or other == 1:
            return self
        if other is False or other == 0:
            return mkbool(Not(self.f))
        return False

    def __ne__(self, other):
        r = self == other
        return mkbool(Not(r.f)) if type(r) is SymBool else not r

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(And(self.f, bf(o)))
        return int(bool(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(Or(self.f, bf(o)))
        return int(bool(self)) | o

    __ror__ = __or__

    def __invert__(self):
        return ~int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return f"SymBool({self.f!r})"


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def bf(b):
    """Formula of a bool-ish value."""
    if b is True or b is False:
        return b
    if type(b) is SymBool:
        return b.f if b._v is None else b._v
    if type(b) is SymInt:
        return (b != 0).f if isinstance(b != 0, SymBool) else (b != 0)
    return bool(b)


# ----------------------------------------------------------------------------- integers


class SymInt:
    __slots__ = ("z", "vars", "ch", "dec", "_h")

    def __init__(self, z, vars_=(), ch=None, dec=None):
        self._h = None
        self.dec = dec  # decimal digits (characters), most significant first
        self.z = z
        self.vars = tuple(vars_)
        self.ch = ch

    @property
    def __class__(self):
        return int

    def __repr__(self):
        return f"SymInt({self.z if self.z is not None else self.ch})"

    def expr(self):
        if self.z is None:
            ch = self.ch
            if ch is None:
                self.z, self.vars = dec_expr(self.dec)
            elif type(ch) is DCh:
                self.z = ch.digit() + 48
                self.vars = tuple(ch.vars)
            else:
                self.z = z3.BV2Int(ch_z(ch))
                self.vars = (ch.var,)
        return self.z

    def allvars(self):
        self.expr()
        return self.vars

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, SymInt) or type(o) is int or type(o) is bool:
            if self.ch is not None and not isinstance(o, SymInt):
                o = int(o)
                ch = self.ch
                if type(ch) is Ch:
                    fn = _CMP[op]
                    m = ch_pre(ch, ("cmp", op, o), lambda v: fn(v, o))
                    d = ENGINE.path.dom.get(ch.var, FULL)
                    if not d & m:
                        return False
                    if not d & ~m:
                        return True
                    return SymBool(Atom(ch.var, m))
            if self.dec is not None:
                if not isinstance(o, SymInt):
                    return mkbool(dec_cmp(self.dec, int(o), op))
                if o.dec is not None:
                    return mkbool(dec_cmp2(self.dec, o.dec, op))
            if self.ch is not None and isinstance(o, SymInt) and o.ch is not None and op in "==!=":
                f = ch_eq(self.ch, o.ch)
                return mkbool(f if op == "==" else Not(f))
            a = self.expr()
            b = o.expr() if isinstance(o, SymInt) else z3.IntVal(int(o))
            e = _CMP[op](a, b)
            e = z3.simplify(e)
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return SymBool(Z(e, self.vars + (o.vars if isinstance(o, SymInt) else ())))
        if isinstance(o, float) and type(o) is float:
            if o == int(o):
                return self._cmp(int(o), op)
            import math

            if op == "==":
                return False
            if op == "!=":
                return True
            if op in ("<", "<="):
                return self._cmp(math.floor(o), "<=")
            return self._cmp(math.ceil(o), ">=")
        if op == "==":
            return False if not hasattr(o, "__sx_cmp__") else NotImplemented
        if op == "!=":
            return True if not hasattr(o, "__sx_cmp__") else NotImplemented
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        if HASH_OK[0]:
            if self._h is None:
                self._h = next_hash()
            return self._h
        raise Unsupported("hash of symbolic int")

    # arithmetic
    def _bin(self, o, fn, rev=False):
        if isinstance(o, SymInt):
            b = o.expr()
            vs = o.vars
        elif isinstance(o, (int, bool)) and type(o) in (int, bool):
            b = z3.IntVal(int(o))
            vs = ()
        elif type(o) is float and o == int(o):
            b = z3.IntVal(int(o))
            vs = ()
        else:
            return NotImplemented
        a = self.expr()
        return mkint(fn(b, a) if rev else fn(a, b), self.vars + vs)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (SymStr, SymBytes)) or type(o) in (str, bytes, list, tuple):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.expr(), self.vars)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.expr() / o, self.allvars())
        raise Unsupported("floordiv by non-constant")

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.expr() % o, self.allvars())
        raise Unsupported("mod by non-constant")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        if type(o) is int and o > 0 and bool(self < 2**53) and bool(self > -(2**53)):
            from .rt import SymFloatish

            return SymFloatish(self, o)
        return self.concretise() / o

    def __pow__(self, o):
        if o == 2:
            return self * self
        return self.concretise() ** o

    def _tab(self, o, fn, key):
        if self.ch is not None and type(self.ch) is Ch and type(o) is int:
            return SymInt(None, (), ch_map(self.ch, lambda v: fn(v, o), (key, o)))
        return None

    def __and__(self, o):
        r = self._tab(o, lambda v, c: v & c, "and")
        if r is not None:
            return r
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.expr() % (o + 1), self.allvars())
        return self.concretise() & o

    __rand__ = __and__

    def __or__(self, o):
        r = self._tab(o, lambda v, c: v | c, "or")
        return r if r is not None else self.concretise() | o

    __ror__ = __or__

    def __xor__(self, o):
        r = self._tab(o, lambda v, c: v ^ c, "xor")
        return r if r is not None else self.concretise() ^ o

    __rxor__ = __xor__

    def __rshift__(self, o):
        if type(o) is int:
            return self // (1 << o)
        return self.concretise() >> o

    def __lshift__(self, o):
        if type(o) is int:
            return self * (1 << o)
        return self.concretise() << o

    def __int__(self):
        return self.__index__()

    def __index__(self):
        return fork_int(self)

    def __float__(self):
        return float(self.concretise())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def conjugate(self):
        return self

    def bit_length(self):
        return fork_int(self).bit_length()

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    def concretise(self):
        return concretise(self)

    def __str__(self):
        raise Unsupported("str() of symbolic int outside instrumented code")

    def __format__(self, spec):
        raise Unsupported("format() of symbolic int outside instrumented code")


import operator as _op

_CMP = {"==": _op.eq, "!=": _op.ne, "<": _op.lt, "<=": _op.le, ">": _op.gt, ">=": _op.ge}

HASH_OK = [False]


def mkint(z, vars_=()):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z, tuple(dict.fromkeys(vars_)))


MAX_FORK_INT = 128


def fork_int(x):
    """Exhaustively enumerate a symbolic int (with the solver); falls back to concretisation."""
    if type(x) is not SymInt:
        return int(x)
    if x.ch is not None:
        c = ch_resolve(x.ch)
        if type(c) is int:
            return c
        if type(c) is Ch:
            for v in sorted(c.values()):
                if bool(x == v):
                    return v
    if x.dec is not None and len(x.dec) <= 3:
        out = 0
        for c in x.dec:
            for v in range(48, 57):
                if fork(ch_in(c, 1 << v)):
                    break
            else:
                v = 57
            out = out * 10 + v - 48
        return out
    p = ENGINE.path
    for _ in range(MAX_FORK_INT):
        # the next candidate value is a function of the path condition; remember it in the path
        key = ("fork_int", p.fresh)
        p.fresh += 1
        v = path_value(key, x)
        if bool(x == v):
            return v
    raise Unsupported("too many values for symbolic int")


def fork_values(of):
    """Values that a function of the model has on this path, one after another: for the caller to fork on."""
    p = ENGINE.path
    for _ in range(MAX_FORK_INT):
        p.fresh += 1
        if p.pos < len(p.decisions):
            v = p.decisions[p.pos][0]
        else:
            v = of(p.get_model())
            p.decisions.append([v, None])
        p._decided(v, None)
        yield v


def path_value(key, x):
    """A feasible concrete value for x, made deterministic under re-execution by recording it as a
    decision slot."""
    p = ENGINE.path
    if p.pos < len(p.decisions):
        v = p.decisions[p.pos][0]
        p._decided(v, None)
        return v
    m = p.get_model()
    v = model_int(x, m)
    p.decisions.append([v, None])
    p._decided(v, None)
    return v


def model_int(x, m):
    if type(x) is not SymInt:
        return int(x)
    if x.dec is not None:
        s = ""
        for c in x.dec:
            if type(c) is Ch:
                b = ENGINE.path.val_of_var(c.var, m)
                c = c.table[b] if c.table is not None else b
            s += chr(c)
        return int(s)
    if x.z is None and type(x.ch) is Ch:
        b = ENGINE.path.val_of_var(x.ch.var, m)
        return x.ch.table[b] if x.ch.table is not None else b
    e = m.eval(subst_vars(x.expr(), x.vars, m), model_completion=True)
    return e.as_long()


def subst_vars(e, vars_, m):
    p = ENGINE.path
    subs = []
    for v in vars_:
        got = m.eval(v.z)
        if not z3.is_bv_value(got):
            subs.append((v.z, z3.BitVecVal(p.val_of_var(v, m), 8)))
    return z3.substitute(e, *subs) if subs else e


# ----------------------------------------------------------------------------- sequences

WS_STR = 0
for _c in range(256):
    if chr(_c).isspace():
        WS_STR |= 1 << _c
WS_BYTES = sum(1 << c for c in b" \t\n\r\v\f")


def _set_mask(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if type(c) is int else ord(c))
    return m


def chars_of(x):
    """Sequence of characters of a str/bytes/Sym sequence."""
    t = type(x)
    if t is SymStr or t is SymBytes or t is SymByteArray:
        return x.chars
    if isinstance(x, str):
        return [ord(c) for c in str.__str__(x)] if t is str else [ord(c) for c in x]
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(bytes(x))
    raise Unsupported(f"chars_of {t}")


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    fs = []
    for x, y in zip(a, b):
        f = ch_eq(x, y)
        if f is False:
            return False
        if f is not True:
            fs.append(f)
    return And(*fs)


def next_hash():
    p = ENGINE.path
    p.fresh += 1
    return p.fresh * 1000003


class SymSeq:
    __slots__ = ("chars", "_h")
    IS_STR = True
    WS = WS_STR

    def __init__(self, chars):
        self.chars = list(chars)
        self._h = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"no model of str/bytes method {name}")

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __repr__(self):
        out = []
        for c in self.chars:
            out.append(repr(chr(c))[1:-1] if type(c) is int else "?")
        return f"<{type(self).__name__} {''.join(out)}>"

    def __hash__(self):
        if HASH_OK[0]:
            if self._h is None:
                self._h = next_hash()
            return self._h
        raise Unsupported("hash of symbolic string")

    def _same(self, o):
        t = type(o)
        if t is SymStr:
            return self.IS_STR
        if t is SymBytes or t is SymByteArray:
            return not self.IS_STR
        if self.IS_STR:
            return isinstance(o, str)
        return isinstance(o, (bytes, bytearray))

    def _need(self, o, what):
        if not self._same(o):
            raise TypeError(
                f"{what}: expected {'str' if self.IS_STR else 'bytes-like object'}, "
                f"not {getattr(o, '__class__', type(o)).__name__}"
            )
        return chars_of(o)

    def mk(self, chars):
        return mkseq(chars, self.IS_STR)

    # comparison
    def __eq__(self, o):
        if not self._same(o):
            return NotImplemented if hasattr(o, "__sx_cmp__") else False
        return mkbool(seq_eq(self.chars, chars_of(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(Not(bf(r)))

    def _order(self, o):
        if not self._same(o):
            return None
        b = chars_of(o)
        for x, y in zip(self.chars, b):
            if not fork(ch_eq(x, y)):
                return -1 if fork(ch_lt(x, y)) else 1
        return (len(self.chars) > len(b)) - (len(self.chars) < len(b))

    def __lt__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r < 0

    def __le__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r <= 0

    def __gt__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r > 0

    def __ge__(self, o):
        r = self._order(o)
        return NotImplemented if r is None else r >= 0

    # building
    def __add__(self, o):
        if not self._same(o):
            raise TypeError("can only concatenate like sequences")
        return self.mk(self.chars + list(chars_of(o)))

    def __radd__(self, o):
        if not self._same(o):
            raise TypeError("can only concatenate like sequences")
        return self.mk(list(chars_of(o)) + self.chars)

    def __mul__(self, n):
        return self.mk(self.chars * n.__index__())

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.mk(self.chars[_cslice(i)])
        if isinstance(i, SymInt):
            i = i.__index__()
        c = self.chars[i]
        if self.IS_STR:
            return self.mk([c])
        return mkbyte(c)

    def __iter__(self):
        if self.IS_STR:
            return iter([self.mk([c]) for c in self.chars])
        return iter([mkbyte(c) for c in self.chars])

    def __contains__(self, o):
        return bool(mkbool(self.contains_f(o)))

    def contains_f(self, o):
        if not self.IS_STR and isinstance(o, int):
            if type(o) is SymInt:
                return Or(*[bf(mkbyte(c) == o) for c in self.chars])
            return Or(*[ch_in(c, 1 << o) for c in self.chars])
        sub = self._need(o, "in")
        n = len(sub)
        if n == 0:
            return True
        return Or(*[seq_eq(self.chars[i : i + n], sub) for i in range(len(self.chars) - n + 1)])

    # predicates
    def _all(self, key, pred, nonempty=True):
        if not self.chars:
            return not nonempty
        return mkbool(And(*[ch_pred(c, key, pred) for c in self.chars]))

    def _p(self, v):
        return chr(v) if self.IS_STR else bytes([v])

    def isdigit(self):
        return self._all(("isdigit", self.IS_STR), lambda v: self._p(v).isdigit())

    def isalpha(self):
        return self._all(("isalpha", self.IS_STR), lambda v: self._p(v).isalpha())

    def isalnum(self):
        return self._all(("isalnum", self.IS_STR), lambda v: self._p(v).isalnum())

    def isspace(self):
        return self._all(("isspace", self.IS_STR), lambda v: self._p(v).isspace())

    def isascii(self):
        return self._all(("isascii", self.IS_STR), lambda v: v < 128, nonempty=False)

    def isdecimal(self):
        return self._all(("isdecimal", self.IS_STR), lambda v: chr(v).isdecimal())

    def isnumeric(self):
        return self._all(("isnumeric", self.IS_STR), lambda v: chr(v).isnumeric())

    def isprintable(self):
        return self._all(("isprintable", self.IS_STR), lambda v: chr(v).isprintable(), False)

    def _cased(self, which):
        p = self._p
        if which == "lower":
            bad = lambda v: p(v).isupper() or (self.IS_STR and chr(v).istitle())
            good = lambda v: p(v).islower()
        else:
            bad = lambda v: p(v).islower() or (self.IS_STR and chr(v).istitle() and not chr(v).isupper())
            good = lambda v: p(v).isupper()
        f = And(
            *[Not(ch_pred(c, ("bad", which, self.IS_STR), bad)) for c in self.chars],
            Or(*[ch_pred(c, ("good", which, self.IS_STR), good) for c in self.chars]),
        )
        return mkbool(f)

    def islower(self):
        return self._cased("lower") if self.chars else False

    def isupper(self):
        return self._cased("upper") if self.chars else False

    def isidentifier(self):
        return concretise(self).isidentifier()

    def istitle(self):
        return concretise(self).istitle()

    # case mapping
    def lower(self):
        if self.IS_STR:
            return self.mk([ch_map(c, lambda v: ord(chr(v).lower()) if len(chr(v).lower()) == 1 else _bad(), "lower") for c in self.chars])
        return self.mk([ch_map(c, lambda v: ord(bytes([v]).lower()), "blower") for c in self.chars])

    def casefold(self):
        return self._casemap(str.casefold, "casefold")

    def upper(self):
        if not self.IS_STR:
            return self.mk([ch_map(c, lambda v: ord(bytes([v]).upper()), "bupper") for c in self.chars])
        return self._casemap(str.upper, "upper")

    def _casemap(self, fn, name):
        out = []
        for c in self.chars:
            if type(c) is int:
                out.extend(map(ord, fn(chr(c))))
                continue
            # split off code points whose mapping is not a single character
            if fork(ch_pred(c, ("single", name), lambda v: len(fn(chr(v))) == 1)):
                out.append(ch_map(c, lambda v: ord(fn(chr(v))[0]), name))
            else:
                c2 = SymStr([c])
                s = concretise_char(c)
                out.extend(map(ord, fn(chr(s))))
        return self.mk(out)

    def swapcase(self):
        return self._casemap(str.swapcase, "swapcase")

    def title(self):
        out, prev_cased = [], False
        for c in self.chars:
            piece = SymStr([c])
            m = piece.lower() if prev_cased else piece._casemap(str.title, "title1")
            out.extend(chars_of(m))
            prev_cased = fork(
                ch_pred(c, "cased", lambda v: chr(v).isupper() or chr(v).islower() or chr(v).istitle())
            )
        return self.mk(out)

    def capitalize(self):
        if not self.chars:
            return self
        h = self.mk(self.chars[:1])
        h = h.title() if isinstance(h, str) and type(h) is str else SymStr(chars_of(h))._casemap(str.title, "title1")
        t = SymStr(self.chars[1:]).lower() if len(self.chars) > 1 else ""
        return self.mk(list(chars_of(h)) + list(chars_of(t)))

    # stripping
    def _stripset(self, chars):
        if chars is None:
            return ("ws", self.WS)
        cs = [ch_resolve(c) for c in self._need(chars, "strip")]
        if any(type(c) is not int for c in cs):
            raise Unsupported("strip with symbolic set")
        return ("m", _set_mask(cs))

    def lstrip(self, chars=None):
        _, m = self._stripset(chars)
        i = 0
        while i < len(self.chars) and fork(ch_in(self.chars[i], m)):
            i += 1
        return self.mk(self.chars[i:])

    def rstrip(self, chars=None):
        _, m = self._stripset(chars)
        j = len(self.chars)
        while j > 0 and fork(ch_in(self.chars[j - 1], m)):
            j -= 1
        return self.mk(self.chars[:j])

    def strip(self, chars=None):
        _, m = self._stripset(chars)
        i, j = 0, len(self.chars)
        while i < j and fork(ch_in(self.chars[i], m)):
            i += 1
        while j > i and fork(ch_in(self.chars[j - 1], m)):
            j -= 1
        return self.mk(self.chars[i:j])

    # searching
    def _range(self, start, end):
        n = len(self.chars)
        start = 0 if start is None else (start if start >= 0 else max(0, n + start))
        end = n if end is None else (min(end, n) if end >= 0 else max(0, n + end))
        return int(start), int(end)

    def find(self, sub, start=None, end=None):
        if not self.IS_STR and isinstance(sub, int):
            sub = SymBytes([sub if type(sub) is int else sub.ch])
        s = self._need(sub, "find")
        a, b = self._range(start, end)
        n = len(s)
        for i in range(a, b - n + 1):
            if fork(seq_eq(self.chars[i : i + n], s)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s = self._need(sub, "rfind")
        a, b = self._range(start, end)
        n = len(s)
        for i in range(b - n, a - 1, -1):
            if fork(seq_eq(self.chars[i : i + n], s)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        s = self._need(sub, "count")
        a, b = self._range(start, end)
        n = len(s)
        if n == 0:
            return b - a + 1
        c, i = 0, a
        while i <= b - n:
            if fork(seq_eq(self.chars[i : i + n], s)):
                c += 1
                i += n
            else:
                i += 1
        return c

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(Or(*[bf(self.startswith(x, start, end)) for x in p]))
        s = self._need(p, "startswith")
        a, b = self._range(start, end)
        if b - a < len(s):
            return False
        return mkbool(seq_eq(self.chars[a : a + len(s)], s))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(Or(*[bf(self.endswith(x, start, end)) for x in p]))
        s = self._need(p, "endswith")
        a, b = self._range(start, end)
        if b - a < len(s):
            return False
        return mkbool(seq_eq(self.chars[b - len(s) : b], s))

    def removeprefix(self, p):
        s = self._need(p, "removeprefix")
        if bool(self.startswith(p)):
            return self.mk(self.chars[len(s) :])
        return self

    def removesuffix(self, p):
        s = self._need(p, "removesuffix")
        if len(s) and bool(self.endswith(p)):
            return self.mk(self.chars[: -len(s)])
        return self

    # splitting
    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.chars)
            while True:
                while i < n and fork(ch_in(self.chars[i], self.WS)):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and fork(ch_in(self.chars[j - 1], self.WS)):
                        j -= 1
                    out.append(self.mk(self.chars[i:j]))
                    return out
                j = i
                while j < n and not fork(ch_in(self.chars[j], self.WS)):
                    j += 1
                out.append(self.mk(self.chars[i:j]))
                i = j
        s = self._need(sep, "split")
        if not s:
            raise ValueError("empty separator")
        i = last = 0
        n, k = len(self.chars), len(s)
        while i <= n - k and (maxsplit < 0 or len(out) < maxsplit):
            if fork(seq_eq(self.chars[i : i + k], s)):
                out.append(self.mk(self.chars[last:i]))
                i += k
                last = i
            else:
                i += 1
        out.append(self.mk(self.chars[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            rev = type(self)(self.chars[::-1]).split(None, maxsplit)
            return [self.mk(list(chars_of(x))[::-1]) for x in rev][::-1]
        s = self._need(sep, "rsplit")
        if not s:
            raise ValueError("empty separator")
        rev = type(self)(self.chars[::-1]).split(self.mk(list(s)[::-1]), maxsplit)
        return [self.mk(list(chars_of(x))[::-1]) for x in rev][::-1]

    def partition(self, sep):
        s = self._need(sep, "partition")
        i = self.find(sep)
        if i < 0:
            return (self, self.mk([]), self.mk([]))
        return (self.mk(self.chars[:i]), sep, self.mk(self.chars[i + len(s) :]))

    def rpartition(self, sep):
        s = self._need(sep, "rpartition")
        i = self.rfind(sep)
        if i < 0:
            return (self.mk([]), self.mk([]), self)
        return (self.mk(self.chars[:i]), sep, self.mk(self.chars[i + len(s) :]))

    def splitlines(self, keepends=False):
        brk = _set_mask("\n\r\v\f\x1c\x1d\x1e\x85") if self.IS_STR else _set_mask("\n\r")
        out, last, i, n = [], 0, 0, len(self.chars)
        while i < n:
            if fork(ch_in(self.chars[i], brk)):
                e = i + 1
                if e < n and fork(ch_in(self.chars[i], 1 << 13)) and fork(ch_in(self.chars[e], 1 << 10)):
                    e += 1
                out.append(self.mk(self.chars[last : e if keepends else i]))
                last = i = e
            else:
                i += 1
        if last < n:
            out.append(self.mk(self.chars[last:]))
        return out

    def replace(self, old, new, count=-1):
        o, r = self._need(old, "replace"), self._need(new, "replace")
        if not o:
            raise Unsupported("replace of empty string")
        if len(o) == 1 and len(r) == 1 and count < 0 and type(o[0]) is int and type(r[0]) is int:
            a, b = o[0], r[0]
            return self.mk([ch_map(c, lambda v: b if v == a else v, ("repl", a, b)) for c in self.chars])
        out, i, n, k, c = [], 0, len(self.chars), len(o), 0
        while i < n:
            if (count < 0 or c < count) and i + k <= n and fork(seq_eq(self.chars[i : i + k], o)):
                out.extend(r)
                i += k
                c += 1
            else:
                out.append(self.chars[i])
                i += 1
        return self.mk(out)

    def join(self, it):
        return seq_join(self, it)

    def translate(self, table):
        if not self.IS_STR:
            raise Unsupported("bytes.translate")
        out = []
        for c in self.chars:
            if type(c) is int:
                out.extend(map(ord, chr(c).translate(table)))
                continue
            if isinstance(table, dict):
                keys = [k for k in table]
                single = all(
                    isinstance(table[k], int) or (isinstance(table[k], str) and len(table[k]) == 1)
                    for k in keys
                )
                if single:
                    tm = {k: (table[k] if isinstance(table[k], int) else ord(table[k])) for k in keys}
                    key = ("tr", tuple(sorted(tm.items())))
                    out.append(ch_map(c, lambda v: tm.get(v, v), key))
                    continue
                done = False
                for k in keys:
                    if fork(ch_in(c, 1 << k)):
                        v = table[k]
                        if v is not None:
                            out.extend([v] if isinstance(v, int) else map(ord, v))
                        done = True
                        break
                if not done:
                    out.append(c)
                continue
            raise Unsupported("translate")
        return self.mk(out)

    def zfill(self, w):
        if len(self.chars) >= w:
            return self
        pad = [48] * (w - len(self.chars))
        if self.chars and fork(ch_in(self.chars[0], _set_mask("+-"))):
            return self.mk(self.chars[:1] + pad + self.chars[1:])
        return self.mk(pad + self.chars)

    def ljust(self, w, fill=" "):
        return self.mk(self.chars + list(chars_of(fill if self.IS_STR or fill != " " else b" ")) * (w - len(self.chars)))

    def rjust(self, w, fill=" "):
        return self.mk(list(chars_of(fill if self.IS_STR or fill != " " else b" ")) * (w - len(self.chars)) + self.chars)

    def center(self, *a):
        return concretise(self).center(*a)

    def expandtabs(self, *a):
        return concretise(self).expandtabs(*a)


def _bad():
    raise Unsupported("case mapping")


def _cslice(s):
    def c(x):
        return x.__index__() if x is not None else None

    return slice(c(s.start), c(s.stop), c(s.step))


def ch_pred(ch, key, pred):
    if type(ch) is int:
        return bool(pred(ch))
    if type(ch) is Ch:
        m = ch_pre(ch, ("pred", key), pred)
        d = ENGINE.path.dom.get(ch.var, FULL)
        if not d & m:
            return False
        if not d & ~m:
            return True
        return Atom(ch.var, m)
    m = 0
    for c in range(48, 58):
        if pred(c):
            m |= 1 << c
    return ch_in(ch, m)


class SymStr(SymSeq):
    __slots__ = ("sub",)
    IS_STR = True

    def __init__(self, chars):
        self.chars = list(chars)
        self._h = None
        self.sub = str

    @property
    def __class__(self):
        return self.sub

    def __str__(self):
        raise Unsupported("str() of symbolic string outside instrumented code")

    def __format__(self, spec):
        raise Unsupported("format() of symbolic string outside instrumented code")

    def __mod__(self, args):
        raise Unsupported("symbolic format string")

    def encode(self, encoding="utf-8", errors="strict"):
        import codecs

        name = codecs.lookup(encoding).name
        out = []
        if name == "idna":
            if fork(And(*[ch_in(c, (1 << 128) - 1) for c in self.chars])):
                res = SymBytes(self.chars)
                labels = res.split(b".")
                if any(not 0 < len(x) < 64 for x in labels[:-1]) or len(labels[-1]) >= 64:
                    raise UnicodeError("label empty or too long")
                return res
            return concretise(self).encode(encoding, errors)
        for i, c in enumerate(self.chars):
            if type(c) is int:
                out.extend(chr(c).encode(encoding, errors))
            elif type(c) is DCh:
                out.append(c)
            elif name == "ascii":
                if fork(ch_in(c, (1 << 128) - 1)):
                    out.append(c)
                elif errors == "strict":
                    raise UnicodeEncodeError(name, chr(concretise_char(c)), 0, 1, "ordinal not in range(128)")
                elif errors == "replace":
                    out.append(63)
                elif errors == "ignore":
                    pass
                else:
                    out.extend(chr(concretise_char(c)).encode(encoding, errors))
            elif name == "iso8859-1":
                if fork(ch_in(c, FULL)):
                    out.append(c)
                else:
                    out.extend(chr(concretise_char(c)).encode(encoding, errors))
            elif name == "utf-8":
                if fork(ch_in(c, (1 << 128) - 1)):
                    out.append(c)
                else:
                    if fork(ch_in(c, FULL)):
                        out.append(ch_map(c, lambda v: (0xC0 | v >> 6) if 128 <= v < 256 else 0, "u8a"))
                        out.append(ch_map(c, lambda v: (0x80 | v & 0x3F) if 128 <= v < 256 else 0, "u8b"))
                    else:
                        out.extend(chr(concretise_char(c)).encode(encoding, errors))
            elif name == "idna":
                raise Unsupported("idna")
            else:
                raise Unsupported(f"encode {name}")
        return SymBytes(out) if any(type(c) is not int for c in out) else bytes(out)


class SymBytes(SymSeq):
    __slots__ = ()
    IS_STR = False
    WS = WS_BYTES

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        import codecs

        name = codecs.lookup(encoding).name
        if name == "ascii":
            bad = [ch_in(c, FULL & ~((1 << 128) - 1)) for c in self.chars]
            if fork(Or(*bad)):
                if errors == "strict":
                    raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
                out = []
                for c, b in zip(self.chars, bad):
                    if fork(b):
                        if errors == "replace":
                            out.append(0xFFFD)
                        elif errors == "ignore":
                            pass
                        else:
                            out.extend(map(ord, bytes([concretise_char(c)]).decode("ascii", errors)))
                    else:
                        out.append(c)
                return mkseq(out, True)
            return mkseq(self.chars, True)
        if name == "iso8859-1":
            return mkseq(self.chars, True)
        if name == "utf-8":
            if fork(And(*[ch_in(c, (1 << 128) - 1) for c in self.chars])):
                return mkseq(self.chars, True)
            return concretise(self).decode(encoding, errors)
        return concretise(self).decode(encoding, errors)

    def __mod__(self, args):
        raise Unsupported("symbolic format bytes")

    def hex(self, *a):
        hx = b"0123456789abcdef"
        out = []
        for c in self.chars:
            out.append(ch_map(c, lambda v: hx[v >> 4], "hexhi"))
            out.append(ch_map(c, lambda v: hx[v & 15], "hexlo"))
        return mkseq(out, True)

    def __bytes__(self):
        raise Unsupported("bytes() of symbolic bytes outside instrumented code")


class SymByteArray(SymBytes):
    """Mutable bytearray stand-in."""

    __slots__ = ()

    @property
    def __class__(self):
        return bytearray

    def append(self, x):
        self.chars.append(x if type(x) is int else byte_ch(x))

    def extend(self, it):
        if type(it) in (SymBytes, SymByteArray) or isinstance(it, (bytes, bytearray)):
            self.chars.extend(chars_of(it))
        else:
            for x in it:
                self.append(x)

    def __iadd__(self, o):
        self.chars.extend(chars_of(o))
        return self

    def clear(self):
        self.chars.clear()

    def __setitem__(self, i, v):
        self.chars[i] = v if type(v) is int else byte_ch(v)

    def __delitem__(self, i):
        del self.chars[i]

    __hash__ = None


def byte_ch(x):
    if type(x) is SymInt:
        if x.ch is not None:
            return x.ch
        return fork_int(x)
    return int(x)


def mkbyte(c):
    c = ch_resolve(c)
    if type(c) is int:
        return c
    return SymInt(None, (), c)


def mkseq(chars, is_str):
    for c in chars:
        if type(c) is not int:
            break
    else:
        return "".join(map(chr, chars)) if is_str else bytes(chars)
    # resolve characters determined by their domains
    rs = [ch_resolve(c) for c in chars]
    for c in rs:
        if type(c) is not int:
            return SymStr(rs) if is_str else SymBytes(rs)
    return "".join(map(chr, rs)) if is_str else bytes(rs)


def resolve(x):
    """Return the concrete value if the domains determine it, else x."""
    t = type(x)
    if t is SymStr or t is SymBytes:
        return mkseq(x.chars, t is SymStr)
    if t is SymInt and x.ch is not None:
        return mkbyte(x.ch)
    return x


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymInt or t is SymBytes or t is SymBool or t is SymByteArray or t is Opaque or hasattr(t, "__sx_sym__")


def seq_join(sep, items):
    items = list(items)
    is_str = isinstance(sep, str)
    out = []
    sc = chars_of(sep)
    for i, x in enumerate(items):
        if type(x) is Opaque:
            return Opaque("join", (sep, tuple(items)))
        if is_str and not isinstance(x, str):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        if not is_str and not isinstance(x, (bytes, bytearray)):
            raise TypeError(f"sequence item {i}: expected a bytes-like object, {type(x).__name__} found")
        if i:
            out.extend(sc)
        out.extend(chars_of(x))
    return mkseq(out, is_str)


class Opaque:
    """An opaque piece of formatted text (e.g. a symbolic number rendered by locale)."""

    __slots__ = ("kind", "args")
    __sx_sym__ = True

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args

    @property
    def __class__(self):
        return str

    def __repr__(self):
        return f"Opaque({self.kind})"

    def __eq__(self, o):
        if type(o) is Opaque and o.kind == self.kind and len(o.args) == len(self.args):
            return mkbool(And(*[bf(a == b) for a, b in zip(self.args, o.args)]))
        raise Unsupported("comparison of opaque text")

    def __ne__(self, o):
        return mkbool(Not(bf(self == o)))

    def __hash__(self):
        raise Unsupported("hash of opaque text")

    def __add__(self, o):
        return Opaque("cat", (self, o))

    def __radd__(self, o):
        return Opaque("cat", (o, self))

    def __bool__(self):
        return True

    def __str__(self):
        raise Unsupported("str() of opaque text")

    def __len__(self):
        raise Unsupported("len of opaque text")

    def __iter__(self):
        raise Unsupported("iteration of opaque text")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"opaque text: .{name}")


# ----------------------------------------------------------------------------- concretisation


def concretise_char(c):
    """Enumerate the values of one character exhaustively by forking."""
    c = ch_resolve(c)
    if type(c) is int:
        return c
    if type(c) is Ch:
        vals = sorted(c.values())
        if len(vals) <= 64:
            for v in vals:
                if fork(ch_in(c, 1 << v)):
                    return v
            raise core.Infeasible()
        return chars_of(concretise(SymStr([c])))[0]
    for d in range(48, 58):
        if fork(ch_in(c, 1 << d)):
            return d
    raise core.Infeasible()


def concretise(x):
    """Pick one feasible concrete value for x and constrain the path to it.

    Exploration is no longer complete for this path: it is counted and reported."""
    p = ENGINE.path
    t = type(x)
    if t is SymBool:
        return bool(x)
    if not is_sym(x):
        return x
    x = resolve(x)
    if not is_sym(x):
        return x
    if t is Opaque:
        return "".join(str(concretise(a)) for a in x.args)
    if t in (SymStr, SymBytes, SymByteArray):
        # exhaustive when every undetermined character has a tiny domain
        size = 1
        for c in x.chars:
            if type(c) is Ch:
                size *= len(c.values())
            elif type(c) is DCh:
                size *= 10
            if size > 32:
                break
        if size <= 32:
            cs = [concretise_char(c) for c in x.chars]
            return mkseq(cs, t is SymStr)
    else:
        if x.ch is not None and type(x.ch) is Ch and len(x.ch.values()) <= 32:
            return fork_int(x)
    if not p.concretised:
        p.concretised = True
        p.e.stats.concretised += 1
    p.trace.append("concretise")
    if t is SymInt:
        v = path_value(None, x)
        p.assume(bf(x == v))
        return v
    key = None
    if p.pos < len(p.decisions):
        v = p.decisions[p.pos][0]
        p._decided(v, None)
    else:
        m = p.get_model()
        v = tuple(model_char(c, m) for c in x.chars)
        p.decisions.append([v, None])
        p._decided(v, None)
    p.assume(seq_eq(x.chars, list(v)))
    return mkseq(list(v), t is SymStr)


def model_char(c, m):
    if type(c) is int:
        return c
    if type(c) is Ch:
        b = ENGINE.path.val_of_var(c.var, m)
        return c.table[b] if c.table is not None else b
    e = m.eval(subst_vars(c.digit(), c.vars, m), model_completion=True)
    return 48 + e.as_long()


def model_value(x, m):
    """Concrete value of any (nested) symbolic value under a model."""
    t = type(x)
    if t is SymStr or t is SymBytes or t is SymByteArray:
        cs = [model_char(c, m) for c in x.chars]
        return "".join(map(chr, cs)) if t is SymStr else bytes(cs)
    if t is SymInt:
        return model_int(x, m)
    if t is SymBool:
        if x._v is not None:
            return x._v
        return model_formula(x.f, m)
    if t is Opaque:
        return Opaque(x.kind, tuple(model_value(a, m) for a in x.args))
    if t is list:
        return [model_value(i, m) for i in x]
    if t is tuple:
        return tuple(model_value(i, m) for i in x)
    if t is dict:
        HASH_OK[0] = True
        try:
            return {model_value(k, m): model_value(v, m) for k, v in x.items()}
        finally:
            HASH_OK[0] = False
    if t is set or t is frozenset:
        return {model_value(i, m) for i in x}
    if hasattr(t, "__sx_model__"):
        return x.__sx_model__(m)
    return x


def model_formula(f, m):
    if f is True or f is False:
        return f
    p = ENGINE.path
    if isinstance(f, Atom):
        return bool(f.mask >> p.val_of_var(f.var, m) & 1)
    if isinstance(f, Nary):
        if f.op == "and":
            return all(model_formula(a, m) for a in f.args)
        return any(model_formula(a, m) for a in f.args)
    e = m.eval(subst_vars(f._z, f.vars, m), model_completion=True)
    return z3.is_true(e)


# ----------------------------------------------------------------------------- int parsing

_US = 95


def parse_int(x, base=10):
    """int(x[, base]) for a symbolic string or bytes."""
    if base != 10:
        if base == 16:
            return _parse_hex(x)
        return int(concretise(x), base)
    is_str = isinstance(x, str)
    cs = list(x.chars)
    ws = WS_BYTES
    err = ValueError("invalid literal for int() with base 10")
    if cs and fork(And(*[ch_in(c, DIGIT_MASK) for c in cs])):
        return digits_value(cs)
    if is_str and not fork(And(*[ch_in(c, (1 << 128) - 1) for c in cs])):
        # CPython: only a string with non-ASCII characters has its Unicode whitespace normalised
        ws = WS_STR
    i, j = 0, len(cs)
    while i < j and fork(ch_in(cs[i], ws)):
        i += 1
    while j > i and fork(ch_in(cs[j - 1], ws)):
        j -= 1
    cs = cs[i:j]
    sign = 1
    if cs:
        if fork(ch_in(cs[0], 1 << 45)):
            sign, cs = -1, cs[1:]
        elif fork(ch_in(cs[0], 1 << 43)):
            cs = cs[1:]
    if not cs:
        raise err
    digits = []
    prev_digit = False
    for c in cs:
        if fork(ch_in(c, DIGIT_MASK)):
            digits.append(c)
            prev_digit = True
        elif prev_digit and fork(ch_in(c, 1 << _US)):
            prev_digit = False
        else:
            raise err
    if not prev_digit:
        raise err
    v = digits_value(digits)
    return -v if sign < 0 else v


def digits_value(cs):
    cs = [ch_resolve(c) for c in cs]
    if all(type(c) is int for c in cs):
        return int("".join(map(chr, cs)))
    if not any(type(c) is DCh for c in cs):
        while cs and cs[0] == 48 and type(cs[0]) is int:
            cs = cs[1:]
        return SymInt(None, (), None, tuple(cs))
    # maximal runs of digits of one integer
    total = z3.IntVal(0)
    vars_ = []
    n = len(cs)
    i = 0
    terms = []
    while i < n:
        c = cs[i]
        if type(c) is DCh:
            j = i
            while (
                j + 1 < n
                and type(cs[j + 1]) is DCh
                and (cs[j + 1].n is c.n or cs[j + 1].n.eq(c.n))
                and cs[j + 1].k == cs[j].k - 1
            ):
                j += 1
            lo = cs[j].k
            hi = c.k
            e = c.n if lo == 0 else c.n / (10**lo)
            if not (ENGINE.path.data.get(("topdigit", c.n.get_id())) == hi):
                e = e % (10 ** (hi - lo + 1))
            w = 10 ** (n - 1 - j)
            terms.append(e if w == 1 else e * w)
            vars_.extend(c.vars)
            i = j + 1
        elif type(c) is int:
            terms.append(z3.IntVal((c - 48) * 10 ** (n - 1 - i)))
            i += 1
        else:
            w = 10 ** (n - 1 - i)
            d = z3.BV2Int(ch_z(c)) - 48
            terms.append(d if w == 1 else d * w)
            vars_.append(c.var)
            i += 1
    return mkint(z3.Sum(terms) if len(terms) > 1 else terms[0], vars_)


def dec_expr(cs):
    n = len(cs)
    terms, vars_ = [], []
    for i, c in enumerate(cs):
        w = 10 ** (n - 1 - i)
        if type(c) is int:
            terms.append(z3.IntVal((c - 48) * w))
        else:
            # the low four bits of an ASCII digit are its value
            d = z3.BV2Int(z3.Extract(3, 0, ch_z(c)))
            terms.append(d if w == 1 else d * w)
            vars_.append(c.var)
    return z3.simplify(z3.Sum(terms) if len(terms) > 1 else terms[0]), tuple(dict.fromkeys(vars_))


def dec_cmp(cs, o, op):
    """Compare the decimal number with digits cs with the constant o: a formula over the digits."""
    n = len(cs)
    if op == "!=":
        return Not(dec_cmp(cs, o, "=="))
    if op in (">", ">="):
        return Not(dec_cmp(cs, o, "<=" if op == ">" else "<"))
    if op == "<=":
        return dec_cmp(cs, o + 1, "<")
    if o < 0:
        return False
    if o >= 10**n:
        return op == "<"
    ds = [ord(d) for d in str(o).zfill(n)]
    if op == "==":
        return And(*[ch_in(c, 1 << d) for c, d in zip(cs, ds)])
    f = False
    for c, d in zip(reversed(cs), reversed(ds)):
        f = Or(ch_in(c, (1 << d) - (1 << 48)) if d > 48 else False, And(ch_in(c, 1 << d), f))
    return f


def dec_cmp2(a, b, op):
    if op == "!=":
        return Not(dec_cmp2(a, b, "=="))
    if op in (">", ">="):
        return dec_cmp2(b, a, "<" if op == ">" else "<=")
    n = max(len(a), len(b))
    a = (48,) * (n - len(a)) + tuple(a)
    b = (48,) * (n - len(b)) + tuple(b)
    if op == "==":
        return And(*[ch_eq(c, d) for c, d in zip(a, b)])
    za = z3.Concat(*[z3.Extract(7, 0, ch_z(c)) for c in a]) if n > 1 else ch_z(a[0])
    zb = z3.Concat(*[z3.Extract(7, 0, ch_z(c)) for c in b]) if n > 1 else ch_z(b[0])
    e = z3.simplify(z3.ULT(za, zb) if op == "<" else z3.ULE(za, zb))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Z(e, tuple(dict.fromkeys(c.var for c in a + b if type(c) is Ch)))


def _parse_hex(x):
    cs = x.chars
    HEX = _set_mask("0123456789abcdefABCDEF")
    if not cs or not fork(And(*[ch_in(c, HEX) for c in cs])):
        return int(concretise(x), 16)
    hv = lambda v: int(chr(v), 16) if chr(v) in "0123456789abcdefABCDEF" else 0
    total = 0
    for i, c in enumerate(cs):
        d = ch_map(c, hv, "hexval")
        total = total * 16 + (d if type(d) is int else SymInt(None, (), d))
    return total


def int_to_str(x, maxdigits=20):
    """str(x) for a symbolic int: exact, forking on sign and number of digits."""
    x = resolve(x)
    if type(x) is int:
        return str(x)
    if x.ch is not None and type(x.ch) is Ch and len(x.ch.values()) <= 16:
        return str(fork_int(x))
    if x.dec is not None:
        cs = list(x.dec)
        while len(cs) > 1 and fork(ch_in(cs[0], 1 << 48)):
            cs = cs[1:]
        return mkseq(cs, True)
    neg = bool(x < 0)
    if neg:
        x = -x
        if type(x) is int:
            return "-" + str(x)
    for nd in range(1, maxdigits + 1):
        if bool(x < 10**nd):
            e = x.expr()
            ENGINE.path.data[("topdigit", e.get_id())] = nd - 1
            ENGINE.path.data[("keep", e.get_id())] = e
            cs = [DCh(e, k, x.vars, nd == 1) for k in range(nd - 1, -1, -1)]
            return mkseq(([45] if neg else []) + cs, True)
    raise Unsupported("integer too long to render")
