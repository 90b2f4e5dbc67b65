"""Snapshots of the state the code under test shares between messages."""
import functools
import sys

from .instr import want


class State:
    """Contents of every module- and class-level container of the code under test.

    Restored before each path so that no value of one path reaches another."""

    def __init__(self, prefixes=("httplint", "http_sf")):
        self.items = []
        self.attrs = []
        self.caches = []
        for name, m in list(sys.modules.items()):
            if want(name) and m is not None:
                for v in list(vars(m).values()):
                    if isinstance(v, functools._lru_cache_wrapper):
                        self.caches.append(v)
                    elif isinstance(v, type) and v.__module__ == name:
                        for w in vars(v).values():
                            w = getattr(w, "__func__", w)
                            if isinstance(w, functools._lru_cache_wrapper):
                                self.caches.append(w)
        seen = set()

        def walk(o, depth):
            if id(o) in seen or depth > 6:
                return
            t = type(o)
            if t in (list, dict, set) or isinstance(o, (dict, list)) and not hasattr(o, "__module__"):
                seen.add(id(o))
                if isinstance(o, dict):
                    self.items.append((o, dict(o)))
                    for v in list(o.values()):
                        walk(v, depth + 1)
                elif isinstance(o, list):
                    self.items.append((o, list(o)))
                    for v in list(o):
                        walk(v, depth + 1)
                else:
                    self.items.append((o, set(o)))
            elif isinstance(o, type):
                if o.__module__.split(".")[0] in prefixes and id(o) not in seen:
                    seen.add(id(o))
                    d = {k: v for k, v in vars(o).items() if not (k.startswith("__") and k.endswith("__")) and not k.startswith("_abc_")}
                    self.attrs.append((o, d))
                    for v in d.values():
                        walk(v, depth + 1)
            elif t is tuple:
                for v in o:
                    walk(v, depth + 1)
            elif type(o).__module__.split(".")[0] in prefixes and hasattr(o, "__dict__"):
                if id(o) not in seen:
                    seen.add(id(o))
                    self.items.append((o.__dict__, dict(o.__dict__)))
                    for v in list(o.__dict__.values()):
                        walk(v, depth + 1)

        for name, m in list(sys.modules.items()):
            if name.split(".")[0] in prefixes and m is not None:
                for k, v in list(vars(m).items()):
                    if not k.startswith("__") and k != "_sx":
                        walk(v, 0)
                self.attrs.append((m, {k: v for k, v in vars(m).items() if not k.startswith("__")}))

    @staticmethod
    def _same(o, c):
        if len(o) != len(c):
            return False
        if isinstance(o, dict):
            for (k1, v1), (k2, v2) in zip(dict.items(o), c.items()):
                if k1 is not k2 or v1 is not v2:
                    return False
            return True
        if isinstance(o, list):
            for a, b in zip(o, c):
                if a is not b:
                    return False
            return True
        return all(any(x is y for y in c) for x in o) if len(o) < 30 else True

    def restore(self):
        changed = 0
        for c in self.caches:
            c.cache_clear()
        for o, c in self.items:
            if not self._same(o, c):
                changed += 1
                o.clear()
                if isinstance(o, list):
                    o.extend(c)
                else:
                    o.update(c)
        for o, d in self.attrs:
            od = vars(o)
            for k, v in d.items():
                if od.get(k, None) is not v:
                    changed += 1
                    setattr(o, k, v)
        return changed
