"""
Symbolic stand-ins for int, bool and str.

Operations whose result is again symbolic build Z3 terms; wherever CPython insists on a real value
(indexing, hashing, formatting, ...) the engine forks over every feasible value, so nothing is lost.
"""
import operator

import z3

from . import engine as _eng

I = z3.IntVal


def E():
    return _eng.ENGINE


def _simp(e):
    return z3.simplify(e)


def mkint(e):
    """Python int if the term is a constant, else SymInt."""
    if isinstance(e, int):
        return e
    e = _simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = _simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def term(x):
    """Z3 Int term (or Python int) of an int-like value; None when not int-like."""
    t = type(x)
    if t is int:
        return x
    if t is SymInt:
        return x.e
    if t is bool:
        return int(x)
    if t is SymBool:
        return z3.If(x.e, I(1), I(0))
    if isinstance(x, int) and not isinstance(x, (SymInt, SymBool)):
        return int(x)
    return None


def bterm(x):
    """Z3 Bool term (or Python bool)."""
    t = type(x)
    if t is bool:
        return x
    if t is SymBool:
        return x.e
    if t is SymInt:
        return x.e != 0
    if t is SymStr:
        return bterm(mkbool(x._n() > 0)) if not isinstance(x._n(), int) else x._n() > 0
    return bool(x)


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    # conversions
    def __index__(self):
        return E().concretize(self.e)

    def __int__(self):
        return E().concretize(self.e)

    __trunc__ = __floor__ = __ceil__ = __int__

    def __float__(self):
        return float(E().concretize(self.e))

    def __hash__(self):
        return hash(E().enumerating(lambda: E().concretize(self.e)))

    def __bool__(self):
        return E().branch(_simp(self.e != 0))

    def __repr__(self):
        return repr(E().concretize(self.e))

    def __str__(self):
        return str(E().concretize(self.e))

    def __format__(self, spec):
        return format(E().concretize(self.e), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise TypeError("cannot pickle symbolic value")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(E().concretize(self.e), name)

    # arithmetic
    def __add__(self, o):
        o = term(o)
        return NotImplemented if o is None else mkint(self.e + o)

    __radd__ = __add__

    def __sub__(self, o):
        o = term(o)
        return NotImplemented if o is None else mkint(self.e - o)

    def __rsub__(self, o):
        o = term(o)
        return NotImplemented if o is None else mkint(o - self.e)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and type(o) is not SymStr:
            return o * E().concretize(self.e)
        o = term(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E().concretize(o)
        return mkint(self.e * o)

    __rmul__ = __mul__

    def _divmod(self, o, fn):
        o = term(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = E().concretize(o)
        if o > 0:
            return mkint(self.e / o) if fn is operator.floordiv else mkint(self.e % o)
        return fn(E().concretize(self.e), o)

    def __floordiv__(self, o):
        return self._divmod(o, operator.floordiv)

    def __mod__(self, o):
        return self._divmod(o, operator.mod)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // E().concretize(self.e)

    def __rmod__(self, o):
        return o % E().concretize(self.e)

    def __truediv__(self, o):
        return E().concretize(self.e) / (int(o) if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / E().concretize(self.e)

    def __pow__(self, o, m=None):
        return pow(E().concretize(self.e), int(o), m)

    def __lshift__(self, o):
        return E().concretize(self.e) << int(o)

    def __rshift__(self, o):
        return E().concretize(self.e) >> int(o)

    def __rlshift__(self, o):
        return o << E().concretize(self.e)

    def __rrshift__(self, o):
        return o >> E().concretize(self.e)

    def __and__(self, o):
        return E().concretize(self.e) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return E().concretize(self.e) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return E().concretize(self.e) ^ int(o)

    __rxor__ = __xor__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(-self.e - 1)

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    # comparisons
    def _cmp(self, o, fn):
        t = term(o)
        if t is None:
            if isinstance(o, float):
                return fn(E().concretize(self.e), o)
            return NotImplemented
        return mkbool(fn(self.e, t))

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E().branch(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _b(self, o, fn):
        if type(o) in (bool, SymBool):
            return mkbool(fn(self.e, bterm(o)))
        return NotImplemented

    def __and__(self, o):
        return self._b(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor)

    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(self.e == bterm(o))
        t = term(o)
        return NotImplemented if t is None else mkbool(term(self) == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) and type(r) is bool else mkbool(z3.Not(r.e))

    def __add__(self, o):
        t = term(o)
        return NotImplemented if t is None else mkint(term(self) + t)

    __radd__ = __add__

    def __sub__(self, o):
        t = term(o)
        return NotImplemented if t is None else mkint(term(self) - t)

    def __rsub__(self, o):
        t = term(o)
        return NotImplemented if t is None else mkint(t - term(self))

    def __lt__(self, o):
        return SymInt(term(self)) < o

    def __le__(self, o):
        return SymInt(term(self)) <= o

    def __gt__(self, o):
        return SymInt(term(self)) > o

    def __ge__(self, o):
        return SymInt(term(self)) >= o


def _min(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a if a <= b else b
    return z3.If(a <= b, a, b)


def _max(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a if a >= b else b
    return z3.If(a >= b, a, b)


class SymStr:
    """
    A view base[lo:hi] on a tuple of character codes (terms or ints).  ``alpha`` is the finite set of
    characters the symbolic codes range over (used for case mapping and class predicates).
    """

    __slots__ = ("base", "lo", "hi", "alpha")

    def __init__(self, base, lo, hi, alpha):
        self.base = base
        self.lo = lo
        self.hi = hi
        self.alpha = alpha

    @staticmethod
    def const(s):
        return SymStr(tuple(ord(c) for c in s), 0, len(s), frozenset(s))

    @property
    def __class__(self):
        return str

    # -- internals
    def _n(self):
        if isinstance(self.lo, int) and isinstance(self.hi, int):
            return self.hi - self.lo
        return term(mkint(self.hi - self.lo))

    def _cap(self):
        n = self._n()
        if isinstance(n, int):
            return n
        return len(self.base)

    def _at(self, i):
        """Character code at index i (term); meaningful only for 0 <= i < len."""
        p = mkint(self.lo + i) if not (isinstance(self.lo, int) and isinstance(i, int)) else self.lo + i
        p = term(p)
        base = self.base
        if isinstance(p, int):
            return base[p] if 0 <= p < len(base) else I(-1)
        r = I(-1)
        for k in range(len(base) - 1, -1, -1):
            r = z3.If(p == k, base[k] if not isinstance(base[k], int) else I(base[k]), r)
        return r

    def _conc_bounds(self):
        """Same string with concrete bounds (forks)."""
        lo = self.lo if isinstance(self.lo, int) else E().concretize(self.lo)
        hi = self.hi if isinstance(self.hi, int) else E().concretize(_simp(self.hi) if not isinstance(self.hi, int) else self.hi)
        return SymStr(self.base, lo, hi, self.alpha)

    def _chars(self):
        s = self._conc_bounds()
        return s.base[s.lo:s.hi]

    def _realize(self):
        return "".join(chr(c if isinstance(c, int) else E().concretize(c)) for c in self._chars())

    @staticmethod
    def _coerce(o):
        if type(o) is SymStr:
            return o
        if isinstance(o, str):
            return SymStr.const(o)
        return None

    def _match_at(self, sub, i):
        """Bool term: sub (concrete length) occurs at index i (terms), ignoring bounds of self."""
        m = sub._n()
        parts = []
        for k in range(m):
            a, b = self._at(i + k), sub._at(k)
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
            else:
                parts.append(a == b)
        return z3.And(parts) if parts else True

    # -- comparison
    def _eq(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        n1, n2 = self._n(), o._n()
        if isinstance(n1, int) and isinstance(n2, int):
            if n1 != n2:
                return False
            r = self._match_at(o, 0)
            return mkbool(r)
        if self.base is o.base and _same(self.lo, o.lo) and _same(self.hi, o.hi):
            return True
        parts = [n1 == n2]
        for k in range(min(self._cap(), o._cap())):
            parts.append(z3.Or(n1 <= k, self._at(k) == o._at(k)))
        return mkbool(z3.And(parts))

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        r = self._eq(o)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else mkbool(z3.Not(r.e))

    def _lt(self, o, or_equal):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        n1, n2 = self._n(), o._n()
        cap = max(self._cap(), o._cap())
        r = z3.BoolVal(or_equal) if isinstance(n1, int) and isinstance(n2, int) and n1 == n2 else (
            (n1 <= n2) if or_equal else (n1 < n2))
        if isinstance(r, bool):
            r = z3.BoolVal(r)
        for k in range(cap - 1, -1, -1):
            both = z3.And(_b(n1 > k), _b(n2 > k))
            a, b = self._at(k), o._at(k)
            r = z3.If(both, z3.Or(_b(a < b), z3.And(_b(a == b), r)), _b((n1 <= n2) if or_equal else (n1 < n2)))
        return mkbool(r)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o._lt(self, False)

    def __ge__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else o._lt(self, True)

    # -- basic protocol
    def __hash__(self):
        return hash(E().enumerating(self._realize))

    def __str__(self):
        return self._realize()

    def __repr__(self):
        return repr(self._realize())

    def __format__(self, spec):
        return format(self._realize(), spec)

    def __bool__(self):
        n = self._n()
        return n > 0 if isinstance(n, int) else E().branch(_simp(n > 0))

    def __len__(self):
        n = self._n()
        return n if isinstance(n, int) else E().concretize(n)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __iter__(self):
        k = 0
        while True:
            n = self._n()
            if not (k < n if isinstance(n, int) else E().branch(_simp(n > k))):
                return
            yield self._char(k)
            k += 1

    def _char(self, i):
        c = self._at(i)
        return SymStr((c,), 0, 1, self.alpha)

    def __getitem__(self, i):
        n = self._n()
        if isinstance(i, slice):
            if i.step is not None and not (type(i.step) is int and i.step == 1):
                return self._realize()[slice(*[None if x is None else int(x) for x in (i.start, i.stop, i.step)])]
            a = self._bound(i.start, 0, n)
            b = self._bound(i.stop, n, n)
            b = _max(a, b)
            if not isinstance(a, int):
                a = term(mkint(a))
            if not isinstance(b, int):
                b = term(mkint(b))
            lo, hi = term(mkint(self.lo + a)), term(mkint(self.lo + b))
            r = SymStr(self.base, lo, hi, self.alpha)
            return r
        t = term(i)
        if t is None:
            if hasattr(i, "__index__"):
                t = operator.index(i)
            else:
                raise TypeError("string indices must be integers")
        ok = mkbool(_b(t >= 0 - n) if isinstance(t, int) and isinstance(n, int) else z3.And(_b(t >= 0 - n), _b(t < n)))
        if isinstance(t, int) and isinstance(n, int):
            ok = -n <= t < n
        if not ok:
            raise IndexError("string index out of range")
        if isinstance(t, int):
            p = t if t >= 0 else n + t
        else:
            p = z3.If(t >= 0, t, n + t)
        return self._char(p)

    @staticmethod
    def _bound(i, default, n):
        if i is None:
            return default
        t = term(i)
        if t is None:
            t = operator.index(i)
        if isinstance(t, int) and isinstance(n, int):
            if t < 0:
                t = max(0, t + n)
            return min(t, n)
        neg = _max(0, t + n)
        pos = _min(t, n)
        if isinstance(t, int):
            return neg if t < 0 else pos
        return z3.If(t < 0, neg, pos)

    def __contains__(self, sub):
        sub = self._coerce(sub)
        if sub is None:
            raise TypeError("'in <string>' requires string as left operand")
        r = self._has(sub)
        return r if isinstance(r, bool) and type(r) is bool else bool(r)

    def _has(self, sub):
        sub = sub._conc_bounds()
        m = sub._n()
        if m == 0:
            return True
        n = self._n()
        parts = []
        for k in range(self._cap() - m + 1):
            c = self._match_at(sub, k)
            parts.append(z3.And(_b(n >= k + m), _b(c)))
        return mkbool(z3.Or(parts)) if parts else False

    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        b = self._chars() + o._chars()
        return SymStr(b, 0, len(b), self.alpha | o.alpha)

    def __radd__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return o + self

    def __mul__(self, k):
        return self._realize() * int(k)

    __rmul__ = __mul__

    def __mod__(self, args):
        return self._realize() % args

    # -- searching
    def _range(self, start, end):
        n = self._n()
        return self._bound(start, 0, n), self._bound(end, n, n), n

    def find(self, sub, start=None, end=None):
        sub = self._coerce(sub)
        if sub is None:
            raise TypeError("must be str")
        sub = sub._conc_bounds()
        m = sub._n()
        a, b, n = self._range(start, end)
        # CPython: start > len -> -1 even for an empty sub
        s = term(start) if start is not None else 0
        if E().fork_find and all(isinstance(x, int) for x in (a, b, n, s)):
            if s <= n:
                for k in range(a, b - m + 1):
                    c = self._match_at(sub, k)
                    if c if isinstance(c, bool) else E().branch(_simp(c)):
                        return k
            return -1
        r = I(-1)
        for k in range(self._cap() - m, -1, -1):
            c = z3.And(_b(a <= k), _b(b >= k + m), _b(self._match_at(sub, k)))
            r = z3.If(c, I(k), r)
        if not (isinstance(s, int) and isinstance(n, int) and s <= n):
            r = z3.If(_b(s > n), I(-1), r)
        return mkint(r)

    def rfind(self, sub, start=None, end=None):
        sub = self._coerce(sub)._conc_bounds()
        m = sub._n()
        a, b, n = self._range(start, end)
        s = term(start) if start is not None else 0
        r = I(-1)
        for k in range(0, self._cap() - m + 1):
            c = z3.And(_b(a <= k), _b(b >= k + m), _b(self._match_at(sub, k)))
            r = z3.If(c, I(k), r)
        if not (isinstance(s, int) and isinstance(n, int) and s <= n):
            r = z3.If(_b(s > n), I(-1), r)
        return mkint(r)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, end) for p in prefix)
        p = self._coerce(prefix)._conc_bounds()
        a, b, n = self._range(start, end)
        s = term(start) if start is not None else 0
        return mkbool(z3.And(_b(s <= n), _b(b - a >= p._n()), _b(self._match_at(p, a))))

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return any(self.endswith(p, start, end) for p in suffix)
        p = self._coerce(suffix)._conc_bounds()
        a, b, n = self._range(start, end)
        s = term(start) if start is not None else 0
        return mkbool(z3.And(_b(s <= n), _b(b - a >= p._n()), _b(self._match_at(p, b - p._n()))))

    def count(self, sub, start=None, end=None):
        return self._realize().count(_real(sub), *[None if x is None else int(x) for x in (start, end)])

    # -- character maps
    def _map(self, fn):
        table = {c: fn(c) for c in self.alpha}
        out = []
        alpha = set()
        for c in self._chars():
            if isinstance(c, int):
                r = fn(chr(c))
                out.extend(ord(x) for x in r)
                alpha.update(r)
                continue
            for ch, r in table.items():
                if len(r) != 1 and E().branch(_simp(c == ord(ch))):
                    out.extend(ord(x) for x in r)
                    alpha.update(r)
                    break
            else:
                e = c
                for ch, r in table.items():
                    if len(r) == 1 and r != ch:
                        e = z3.If(c == ord(ch), I(ord(r)), e)
                out.append(_simp(e))
                alpha.update(r for r in table.values() if len(r) == 1)
        return SymStr(tuple(out), 0, len(out), frozenset(alpha))

    def replace(self, old, new, count=-1):
        if type(old) is str and type(new) is str and len(old) == 1 and type(count) is int and count == -1:
            return self._map(lambda c: c.replace(old, new))
        return SymStr.const(self._realize().replace(_real(old), _real(new), _real(count)))

    def _strip(self, chars, left, right):
        cs = self._conc_bounds()
        lo, hi = cs.lo, cs.hi
        chars = None if chars is None else SymStr._coerce(chars)

        def hit(i):
            c = SymStr(cs.base, i, i + 1, cs.alpha)
            return bool(c.isspace()) if chars is None else bool(chars._has(c))

        while left and lo < hi and hit(lo):
            lo += 1
        while right and lo < hi and hit(hi - 1):
            hi -= 1
        return SymStr(cs.base, lo, hi, cs.alpha)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def _pred(self, fn):
        cs = self._chars()
        if not cs:
            return False
        good = [ord(c) for c in self.alpha if fn(c)]
        parts = []
        for c in cs:
            if isinstance(c, int):
                if not fn(chr(c)):
                    return False
            else:
                parts.append(z3.Or([c == g for g in good]))
        return mkbool(z3.And(parts)) if parts else True

    def isspace(self):
        return self._pred(str.isspace)

    def isdigit(self):
        return self._pred(str.isdigit)

    def isalpha(self):
        return self._pred(str.isalpha)

    def isalnum(self):
        return self._pred(str.isalnum)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        bound = getattr(self._realize(), name)

        def method(*args, **kw):
            return _rewrap(bound(*[_real(a) for a in args], **{k: _real(v) for k, v in kw.items()}))

        return method


def _rewrap(x):
    """Results of realised methods stay SymStr, so that they can still be compared and searched."""
    if type(x) is str:
        return SymStr.const(x)
    if type(x) in (list, tuple):
        return type(x)(_rewrap(y) for y in x)
    return x


def _real(x):
    if type(x) is SymStr:
        return x._realize()
    if type(x) is SymInt:
        return int(x)
    if type(x) is SymBool:
        return bool(x)
    return x


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def _same(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


SYM = (SymInt, SymBool, SymStr)


def is_sym(x):
    return type(x) in SYM


def deep_sym(x):
    if type(x) in SYM:
        return True
    if type(x) in (tuple, list):
        return any(deep_sym(y) for y in x)
    return False
