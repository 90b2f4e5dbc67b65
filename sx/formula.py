"""Light boolean formulas over character-domain atoms, with lazy translation to z3.

Atoms are (variable, 256-bit mask): "the value of this byte variable is in the set".
Arbitrary z3 booleans can be embedded ("Z").  Everything is kept in negation normal form so that
the per-path domain propagation (core.Path) can decide most atoms without a solver query.
"""
import z3

FULL = (1 << 256) - 1


class Var:
    """A byte variable (z3 BitVec 8)."""

    __slots__ = ("name", "idx", "z")

    def __init__(self, name, idx):
        self.name = name
        self.idx = idx
        self.z = z3.BitVec(name, 8)

    def __repr__(self):
        return f"<{self.name}>"


class F:
    __slots__ = ("_z",)
    _z: object


class Atom(F):
    __slots__ = ("var", "mask")

    def __init__(self, var, mask):
        self.var = var
        self.mask = mask
        self._z = None

    def __repr__(self):
        return f"{self.var.name}∈{mask_repr(self.mask)}"


class Nary(F):
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._z = None

    def __repr__(self):
        return "(" + (" & " if self.op == "and" else " | ").join(map(repr, self.args)) + ")"


class Z(F):
    __slots__ = ("vars",)

    def __init__(self, expr, vars_=()):
        self._z = expr
        self.vars = tuple(vars_)

    def __repr__(self):
        return f"Z[{self._z}]"


def mask_repr(mask):
    out = []
    i = 0
    while i < 256:
        if mask >> i & 1:
            j = i
            while j < 255 and mask >> (j + 1) & 1:
                j += 1
            out.append(f"{i:02x}" if i == j else f"{i:02x}-{j:02x}")
            i = j + 1
        else:
            i += 1
    return "{" + ",".join(out) + "}"


def _ranges(mask):
    out = []
    while mask:
        lo = (mask & -mask).bit_length() - 1
        m = mask >> lo
        run = (~m & (m + 1)).bit_length() - 1
        out.append((lo, lo + run - 1))
        mask &= ~(((1 << run) - 1) << lo)
    return out


_atom_cache = {}


def atom_z3(var, mask):
    key = (var.name, mask)
    got = _atom_cache.get(key)
    if got is not None:
        return got
    z = var.z
    neg = False
    rs = _ranges(mask)
    nrs = _ranges(FULL & ~mask)
    if len(nrs) < len(rs):
        rs, neg = nrs, True
    parts = []
    for lo, hi in rs:
        if lo == hi:
            parts.append(z == lo)
        elif lo == 0:
            parts.append(z3.ULE(z, hi))
        elif hi == 255:
            parts.append(z3.UGE(z, lo))
        else:
            parts.append(z3.And(z3.UGE(z, lo), z3.ULE(z, hi)))
    e = parts[0] if len(parts) == 1 else (z3.Or(*parts) if parts else z3.BoolVal(False))
    if neg:
        e = z3.Not(e)
    if len(_atom_cache) > 200000:
        _atom_cache.clear()
    _atom_cache[key] = e
    return e


def to_z3(f):
    if f is True or f is False:
        return z3.BoolVal(f)
    if f._z is not None:
        return f._z
    if isinstance(f, Atom):
        f._z = atom_z3(f.var, f.mask)
    else:
        args = [to_z3(a) for a in f.args]
        f._z = z3.And(*args) if f.op == "and" else z3.Or(*args)
    return f._z


def Not(f):
    if f is True:
        return False
    if f is False:
        return True
    if isinstance(f, Atom):
        m = FULL & ~f.mask
        return Atom(f.var, m) if m else False
    if isinstance(f, Z):
        return Z(z3.Not(f._z), f.vars)
    op = "or" if f.op == "and" else "and"
    return _nary(op, [Not(a) for a in f.args])


def And(*fs):
    return _nary("and", fs)


def Or(*fs):
    return _nary("or", fs)


def _nary(op, fs):
    absorb = op == "or"  # the absorbing element
    atoms = {}
    rest = []
    seen = set()
    stack = list(fs)
    stack.reverse()
    while stack:
        f = stack.pop()
        if f is absorb:
            return absorb
        if f is (not absorb):
            continue
        if isinstance(f, Atom):
            v = f.var
            if v in atoms:
                m = (atoms[v] | f.mask) if absorb else (atoms[v] & f.mask)
                atoms[v] = m
                if absorb and m == FULL:
                    return True
                if not absorb and not m:
                    return False
            else:
                atoms[v] = f.mask
        elif isinstance(f, Nary) and f.op == op:
            stack.extend(reversed(f.args))
        else:
            if id(f) not in seen:
                seen.add(id(f))
                rest.append(f)
    args = [Atom(v, m) for v, m in atoms.items()]
    args.extend(rest)
    if not args:
        return not absorb
    if len(args) == 1:
        return args[0]
    return Nary(op, args)


def simplify(f, dom):
    """Simplify under the domains; returns True/False/F."""
    if f is True or f is False:
        return f
    if isinstance(f, Atom):
        d = dom.get(f.var, FULL)
        m = d & f.mask
        if not m:
            return False
        if m == d:
            return True
        if m != f.mask:
            return Atom(f.var, m)  # equivalent under the domain
        return f
    if isinstance(f, Z):
        return f
    out = []
    changed = False
    absorb = f.op == "or"
    for a in f.args:
        s = simplify(a, dom)
        if s is absorb:
            return absorb
        if s is not a:
            changed = True
        if s is not (not absorb):
            out.append(s)
    if not changed:
        return f
    return _nary(f.op, out)


def fvars(f, acc=None):
    if acc is None:
        acc = set()
    if isinstance(f, Atom):
        acc.add(f.var)
    elif isinstance(f, Z):
        acc.update(f.vars)
    elif isinstance(f, Nary):
        for a in f.args:
            fvars(a, acc)
    return acc


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


def mask_iter(mask):
    while mask:
        low = mask & -mask
        yield low.bit_length() - 1
        mask ^= low
