"""hashlib for symbolic data: a digest stands for the data it was made from.

Different data has different digests here (that is, collisions are left out); the digest of
concrete data is the real one.
"""
import hashlib

from . import rt
from .formula import Not
from .values import bf, chars_of, concretise, mkbool, seq_eq

REAL = {n: getattr(hashlib, n) for n in ("new", "md5", "sha1", "sha256", "sha512")}
KNOWN = {}  # digests of concrete data


class Digest:
    __sx_sym__ = True

    def __init__(self, name, data):
        self.name = name
        self.data = data

    @property
    def __class__(self):
        return bytes

    def __bool__(self):
        return True

    def __len__(self):
        return REAL["new"](self.name).digest_size

    def __eq__(self, o):
        if type(o) is Digest:
            if o.name != self.name or len(o.data) != len(self.data):
                return False
            return mkbool(seq_eq(self.data, o.data))
        if type(o) is bytes:
            data = KNOWN.get((self.name, o))
            if data is not None:
                if len(data) != len(self.data):
                    return False
                return mkbool(seq_eq(self.data, chars_of(data)))
            return self.__sx_conc__() == o
        return False

    def __ne__(self, o):
        r = self == o
        return mkbool(Not(bf(r)))

    __hash__ = None

    def __sx_conc__(self):
        d = rt.mkseq(self.data, False)
        if rt.symv(d):
            d = concretise(d)
        return REAL["new"](self.name, d).digest()

    def __repr__(self):
        return f"Digest({self.name})"


class Hash:
    def __init__(self, name, data=b""):
        REAL["new"](name)
        self.name = name
        self.data = []
        self.update(data)

    def update(self, data):
        self.data.extend(chars_of(data))

    def copy(self):
        h = Hash(self.name)
        h.data = list(self.data)
        return h

    @property
    def digest_size(self):
        return REAL["new"](self.name).digest_size

    def digest(self):
        d = rt.mkseq(self.data, False)
        if not rt.symv(d):
            r = REAL["new"](self.name, d).digest()
            if len(KNOWN) > 5000:
                KNOWN.clear()
            KNOWN[(self.name, r)] = d
            return r
        return Digest(self.name, list(self.data))

    def hexdigest(self):
        d = self.digest()
        if type(d) is Digest:
            d = d.__sx_conc__()
        return d.hex()


def install():
    rt.model(hashlib.new, Hash)
    for n in ("md5", "sha1", "sha256", "sha512"):
        rt.model(REAL[n], lambda data=b"", _n=n, **k: Hash(_n, data))


install()
