"""
Replacements for the built-ins that force symbolic values to become concrete.  They are put into the
globals of the loaded ``rebulk`` modules (never into the files), only where a module does not define
the name itself.  Whatever is not replaced still works: the engine then forks over the feasible values.
"""
import builtins
import collections
import operator
import sys

import z3

from . import engine as _eng
from .proxies import SymBool, SymInt, SymStr, _b, _max, _min, deep_sym, is_sym, mkbool, mkint, term


def E():
    return _eng.ENGINE


# -- len -------------------------------------------------------------------------------------------
_plain_len = builtins.len


def sym_len(obj):
    t = type(obj)
    if t is SymStr:
        n = obj._n()
        return n if isinstance(n, int) else mkint(n)
    m = getattr(t, "__len__", None)
    if m is None or not hasattr(m, "__code__"):
        return _plain_len(obj)
    n = m(obj)
    if type(n) is SymInt:
        if n < 0:
            raise ValueError("__len__() should return >= 0")
        return n
    n = operator.index(n)
    if n < 0:
        raise ValueError("__len__() should return >= 0")
    return n


# -- min / max ---------------------------------------------------------------------------------------
def _minmax(plain, pick):
    def fn(*args, **kw):
        vals = args
        if len(args) == 1:
            vals = args = (list(args[0]),)
            vals = args[0]
        if "key" not in kw and vals and any(type(v) is SymInt for v in vals) and all(type(v) in (int, SymInt) for v in vals):
            r = vals[0]
            r = term(r)
            for v in vals[1:]:
                r = pick(r, term(v))
            return mkint(r)
        return plain(*args, **kw)

    fn.__name__ = plain.__name__
    return fn


sym_min = _minmax(builtins.min, _min)
sym_max = _minmax(builtins.max, _max)


# -- range -------------------------------------------------------------------------------------------
class SymRange:
    def __init__(self, *args):
        if len(args) == 1:
            a, b, s = 0, args[0], 1
        elif len(args) == 2:
            a, b, s = args[0], args[1], 1
        else:
            a, b, s = args
        s = operator.index(s)
        if s == 0:
            raise ValueError("range() arg 3 must not be zero")
        for x in (a, b):
            if not isinstance(x, int):
                operator.index(x)
        self.start, self.stop, self.step = a, b, s

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step

    def _real(self):
        return range(int(self.start), int(self.stop), self.step)

    def __reversed__(self):
        if self.step == 1:
            i = self.stop - 1
            while i >= self.start:
                yield i
                i = i - 1
        else:
            yield from reversed(self._real())

    def __contains__(self, x):
        if isinstance(x, int) and abs(self.step) == 1:
            if self.step == 1:
                return bool(x >= self.start) and bool(x < self.stop)
            return bool(x <= self.start) and bool(x > self.stop)
        return x in self._real()

    def __len__(self):
        if abs(self.step) == 1:
            n = (self.stop - self.start) * self.step
            return n if n > 0 else 0
        return len(self._real())

    def __bool__(self):
        return bool(self.start < self.stop) if self.step > 0 else bool(self.start > self.stop)

    def __getitem__(self, i):
        return self._real()[i]

    def __eq__(self, o):
        return self._real() == (o._real() if type(o) is SymRange else o)

    def __hash__(self):
        return hash(self._real())


def sym_range(*args):
    if any(type(a) is SymInt for a in args):
        return SymRange(*args)
    return range(*args)


# -- id: deterministic, so that identity-keyed sets iterate the same way in every re-execution ------------
def sym_id(obj):
    g = E()
    k = builtins.id(obj)
    r = g.idmap.get(k)
    if r is None:
        r = g.idmap[k] = len(g.idmap) + 1
        g.idkeep.append(obj)
        # spread, direction chosen per run so that no single iteration order is baked in
    return r


# -- dict with symbolic keys ---------------------------------------------------------------------------
_MISSING = object()


def same_key(a, b):
    if a is b:
        return True
    if deep_sym(a) or deep_sym(b):
        if type(a) is tuple and type(b) is tuple:
            if len(a) != len(b):
                return False
            return all(same_key(x, y) for x, y in zip(a, b))
        return bool(a == b)
    return a == b


class SymDict(dict):
    """
    Insertion-ordered dict whose keys may be symbolic (equality of keys is decided by the engine).
    The keys that are plain values are kept in an ordinary dict as long as no symbolic key exists.
    """

    factory = None

    def __init__(self, *args, **kw):
        super().__init__()
        self._k = []  # keys, insertion order
        self._v = []
        self._idx = {}  # plain key -> position, valid while no deletion
        self._sym = 0
        self.update(*args, **kw)

    def _find(self, key):
        if not deep_sym(key):
            try:
                pos = self._idx.get(key)
            except TypeError:
                raise
            if pos is not None:
                return pos
            if not self._sym:
                return None
        for i, k in enumerate(self._k):
            if deep_sym(k) or deep_sym(key):
                if same_key(k, key):
                    return i
        return None

    def _reindex(self):
        self._idx = {k: i for i, k in enumerate(self._k) if not deep_sym(k)}
        self._sym = sum(1 for k in self._k if deep_sym(k))

    def __setitem__(self, key, value):
        if not deep_sym(key):
            hash(key)
        i = self._find(key)
        if i is not None:
            self._v[i] = value
            return
        if deep_sym(key):
            self._sym += 1
        else:
            self._idx[key] = len(self._k)
        self._k.append(key)
        self._v.append(value)

    def __getitem__(self, key):
        i = self._find(key)
        if i is None:
            return self.__missing__(key)
        return self._v[i]

    def __missing__(self, key):
        raise KeyError(key)

    def __delitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        del self._k[i], self._v[i]
        self._reindex()

    def __contains__(self, key):
        return self._find(key) is not None

    def get(self, key, default=None):
        i = self._find(key)
        return default if i is None else self._v[i]

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i is None:
            self[key] = default
            return default
        return self._v[i]

    def pop(self, key, default=_MISSING):
        i = self._find(key)
        if i is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        v = self._v[i]
        del self._k[i], self._v[i]
        self._reindex()
        return v

    def popitem(self):
        if not self._k:
            raise KeyError("dictionary is empty")
        k, v = self._k.pop(), self._v.pop()
        self._reindex()
        return k, v

    def clear(self):
        self._k, self._v, self._idx, self._sym = [], [], {}, 0

    def update(self, *args, **kw):
        for a in args:
            if hasattr(a, "keys"):
                for k in a.keys():
                    self[k] = a[k]
            else:
                for k, v in a:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def keys(self):
        return _View(self, "k")

    def values(self):
        return _View(self, "v")

    def items(self):
        return _View(self, "i")

    def __iter__(self):
        n = len(self._k)
        for k in self._k:
            yield k
            if len(self._k) != n:
                raise RuntimeError("dictionary changed size during iteration")

    def __reversed__(self):
        return iter(self._k[::-1])

    def __len__(self):
        return len(self._k)

    def __bool__(self):
        return bool(self._k)

    def copy(self):
        r = type(self)() if self.factory is None else type(self)(self.factory)
        r._k, r._v = list(self._k), list(self._v)
        r._reindex()
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        r = type(self)() if self.factory is None else type(self)(self.factory)
        memo[builtins.id(self)] = r
        r._k, r._v = copy.deepcopy(self._k, memo), copy.deepcopy(self._v, memo)
        r._reindex()
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        return len(self) == len(o) and all(k in o and o[k] == v for k, v in self.items())

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"


class _View:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def _list(self):
        d = self.d
        return d._k if self.kind == "k" else d._v if self.kind == "v" else list(zip(d._k, d._v))

    def __iter__(self):
        n = len(self.d._k)
        for x in list(self._list()):
            if len(self.d._k) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield x

    def __len__(self):
        return len(self.d._k)

    def __contains__(self, x):
        if self.kind == "k":
            return x in self.d
        return any(same_key(x, y) if self.kind == "v" else x == y for y in self._list())

    def __reversed__(self):
        return iter(list(self._list())[::-1])

    def _set(self):
        return set(self._list())

    def __and__(self, o):
        return self._set() & set(o)

    def __or__(self, o):
        return self._set() | set(o)

    def __sub__(self, o):
        return self._set() - set(o)

    def __eq__(self, o):
        return self._set() == set(o)

    __hash__ = None


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *args, **kw):
        self.factory = factory
        super().__init__(*args, **kw)

    @property
    def default_factory(self):
        return self.factory

    def __missing__(self, key):
        if self.factory is None:
            raise KeyError(key)
        v = self.factory()
        self[key] = v
        return v


# -- set with symbolic members ---------------------------------------------------------------------------
class SymSet:
    """
    Set over known candidates of which each is a member under a condition.  Not a subclass of ``set``, so that
    C code never reads an empty table: whatever is not defined here iterates it, which forks on membership.
    """

    __hash__ = None
    table = dict

    def __init__(self, items=()):
        self.d = self.table()  # candidate -> z3 condition
        for k, c in items:
            self._put(k, c)

    @property
    def __class__(self):
        return set

    def _put(self, k, c):
        c = _b(c)
        old = self.d.get(k)
        c = c if old is None else z3.Or(old, c)
        c = z3.simplify(c)
        if z3.is_false(c):
            self.d.pop(k, None)
        else:
            self.d[k] = c

    @staticmethod
    def _pairs(o):
        if type(o) is SymSet:
            return list(o.d.items())
        return [(k, z3.BoolVal(True)) for k in o]

    def _cond(self, k):
        return self.d.get(k, z3.BoolVal(False))

    def copy(self):
        return SymSet(self.d.items())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __iter__(self):
        for k, c in list(self.d.items()):
            if z3.is_true(c) or E().branch(c):
                yield k

    def __len__(self):
        sure = sum(z3.is_true(c) for c in self.d.values())
        unsure = [z3.If(c, 1, 0) for c in self.d.values() if not z3.is_true(c)]
        n = z3.Sum(unsure) + sure if unsure else sure
        return n if isinstance(n, int) else mkint(n)

    def __bool__(self):
        conds = list(self.d.values())
        return any(map(z3.is_true, conds)) or bool(conds) and E().branch(z3.Or(conds))

    def __contains__(self, x):
        c = self.d.get(x)
        return c is not None and (z3.is_true(c) or E().branch(c))

    # non mutating
    def union(self, *os):
        r = self.copy()
        r.update(*os)
        return r

    def difference(self, *os):
        r = self.copy()
        r.difference_update(*os)
        return r

    def intersection(self, *os):
        r = self.copy()
        for o in os:
            cond = self.table((k, _b(c)) for k, c in self._pairs(o))
            r = SymSet((k, z3.And(c, cond[k])) for k, c in r.d.items() if k in cond)
        return r

    def symmetric_difference(self, o):
        o = SymSet(self._pairs(o))
        return (self - o) | (o - self)

    def _aset(o):  # noqa: N805
        return type(o) is SymSet or isinstance(o, (set, frozenset))

    def __or__(self, o):
        return self.union(o) if SymSet._aset(o) or isinstance(o, _View) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if SymSet._aset(o) or isinstance(o, _View) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if SymSet._aset(o) or isinstance(o, _View) else NotImplemented

    def __rsub__(self, o):
        return SymSet(self._pairs(o)).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rxor__ = __xor__

    def _sub(self, o):
        o = self.table(self._pairs(o))
        return z3.And([z3.Implies(c, _b(o.get(k, z3.BoolVal(False)))) for k, c in self.d.items()] or [z3.BoolVal(True)])

    def issubset(self, o):
        return E().branch(self._sub(o))

    def issuperset(self, o):
        return E().branch(SymSet(self._pairs(o))._sub(self))

    def isdisjoint(self, o):
        return not self.intersection(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        if not SymSet._aset(o):
            return False
        return E().branch(z3.And(self._sub(o), SymSet(self._pairs(o))._sub(self)))

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.issubset(o) and not self.issuperset(o)

    def __gt__(self, o):
        return self.issuperset(o) and not self.issubset(o)

    # mutating
    def add(self, x):
        self._put(x, z3.BoolVal(True))

    def update(self, *os):
        for o in os:
            for k, c in self._pairs(o):
                self._put(k, c)

    def difference_update(self, *os):
        for o in os:
            for k, c in self._pairs(o):
                if k in self.d:
                    c = z3.simplify(z3.And(self.d.pop(k), z3.Not(_b(c))))
                    self._put(k, c)

    def intersection_update(self, *os):
        self.d = self.intersection(*os).d

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        del self.d[x]

    def pop(self):
        for k in self:
            self.d.pop(k)
            return k
        raise KeyError("pop from an empty set")

    def clear(self):
        self.d = self.table()

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.d)) + "}?"


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, set)

    def __subclasscheck__(cls, c):
        return issubclass(c, set)


def _set_method(name):
    def method(first, *rest):
        if type(first) is not SymSet and any(type(o) is SymSet for o in rest):
            first = SymSet(SymSet._pairs(first)) if not name.endswith("update") else first
        return getattr(first, name)(*rest)

    return staticmethod(method)


class SetShim(metaclass=_SetMeta):
    """Stands for ``set`` in the code under test: copies keep symbolic membership."""

    def __new__(cls, items=()):
        if type(items) is SymSet:
            return items.copy()
        if SymSet.table is not dict:
            return SymSet(SymSet._pairs(items))
        return set(items)

    def __class_getitem__(cls, item):
        return set[item]


for _n in ("union", "difference", "intersection", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "update",
           "difference_update", "add", "discard", "remove", "copy", "pop", "clear"):
    setattr(SetShim, _n, _set_method(_n))


class _DictMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, dict)

    def __subclasscheck__(cls, c):
        return issubclass(c, dict)


class DictShim(metaclass=_DictMeta):
    """Stands for ``dict`` in the code under test when its tables are rewritten."""

    def __new__(cls, *args, **kw):
        return SymDict(*args, **kw)

    def __class_getitem__(cls, item):
        return dict[item]

    @staticmethod
    def fromkeys(keys, value=None):
        return SymDict((k, value) for k in keys)


# -- installation ------------------------------------------------------------------------------------------
def _bool_from_len(self):
    n = type(self).__len__(self)
    if type(n) is SymInt:
        if n < 0:
            raise ValueError("__len__() should return >= 0")
        return bool(n != 0)
    if n < 0:
        raise ValueError("__len__() should return >= 0")
    return n != 0


def modules():
    return [m for n, m in list(sys.modules.items()) if (n == "rebulk" or n.startswith("rebulk.")) and m is not None and ".test" not in n]


def install(extra=None):
    """Returns the list of what was replaced (for the evidence)."""
    done = []
    builtin_shims = {"len": sym_len, "min": sym_min, "max": sym_max, "range": sym_range, "id": sym_id}
    for m in modules():
        if m.__name__ == "rebulk.toposort" and "set" not in m.__dict__:
            m.__dict__["set"] = SetShim
            done.append("rebulk.toposort.set")
    if SymSet.table is not dict:
        builtin_shims.update({"set": SetShim, "dict": DictShim})
        done.append("dict and set displays")
    builtin_shims.update(extra or {})
    for m in modules():
        for name, fn in builtin_shims.items():
            if name not in m.__dict__:
                m.__dict__[name] = fn
        for name, val in list(m.__dict__.items()):
            if val is collections.defaultdict:
                m.__dict__[name] = SymDefaultDict
                done.append(f"{m.__name__}.{name}")
        for val in list(m.__dict__.values()):
            if isinstance(val, type) and getattr(val, "__module__", "").startswith("rebulk"):
                if hasattr(val.__dict__.get("__len__"), "__code__") and not any("__bool__" in c.__dict__ for c in val.__mro__):
                    val.__bool__ = _bool_from_len
                    done.append(f"{val.__module__}.{val.__qualname__}.__bool__")
    return sorted(set(done)) + sorted(builtin_shims)
