"""The context of a symbolic run."""
import z3

from . import api
from . import engine as _eng
from .proxies import SymBool, SymInt, SymStr, _b, bterm, deep_sym, mkbool, mkint, term


class SymCtx(api.BaseCtx):
    symbolic = True

    def __init__(self, engine, eager=0, covered=None):
        self.g = engine
        self.eager = int(eager)  # 1: booleans forked at creation, 2: every input
        self.covered = covered if covered is not None else set()
        self.vars = {}

    # -- inputs
    def _var(self, name, sort):
        v = self.vars.get((name, sort))
        if v is None:
            v = self.vars[(name, sort)] = z3.Int(name) if sort == "i" else z3.Bool(name)
        return v

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        if lo > hi:
            raise _eng.PathAbort()
        name = self.g.fresh_name(name)
        v = self._var(name, "i")
        self.g.inputs.append((name, "int", v))
        self.g.constrain(v >= lo)
        self.g.constrain(v <= hi)
        return self.g.concretize(v) if self.eager > 1 else SymInt(v)

    def bool(self, name):
        name = self.g.fresh_name(name)
        v = self._var(name, "b")
        self.g.inputs.append((name, "bool", v))
        return self.g.branch(v) if self.eager else SymBool(v)

    def string(self, name, alphabet, lo, hi):
        """String over a finite alphabet; its length is forked."""
        name = self.g.fresh_name(name)
        n = lo
        if hi > lo:
            lv = self._var(name + ".len", "i")
            self.g.constrain(lv >= lo)
            self.g.constrain(lv <= hi)
            n = self.g.concretize(lv)
        codes = sorted({ord(c) for c in alphabet})
        chars = []
        for k in range(n):
            c = self._var(f"{name}.{k}", "i")
            if codes[-1] - codes[0] == len(codes) - 1:
                self.g.constrain(c >= codes[0])
                self.g.constrain(c <= codes[-1])
            else:
                self.g.constrain(z3.Or([c == x for x in codes]))
            chars.append(c)
        self.g.inputs.append((name, "str", (chars, n)))
        s = SymStr(tuple(chars), 0, n, frozenset(alphabet))
        return s._realize() if self.eager > 1 else s

    def wrap(self, s):
        """Constant string that can be searched for symbolic strings."""
        return s if self.eager > 1 or not isinstance(s, str) or type(s) is SymStr else SymStr.const(s)

    def hashval(self, name):
        return self.int(name, -4, 4)

    def fork_find(self):
        """str.find forks over the position found instead of returning it as one term."""
        self.g.fork_find = True

    def make_symset(self, conds):
        from .shims import SymSet

        return SymSet((x, bterm(c)) for x, c in conds)

    # -- verdicts
    def assume(self, *cs):
        for c in cs:
            if type(c) is SymBool:
                self.g.assume(c.e)
            elif not c:
                raise _eng.PathAbort()

    def check(self, c, label, detail=None):
        if type(c) is SymInt:
            c = c != 0
        if type(c) is SymBool:
            self.g.check(c.e, label)
        else:
            self.g.check(bool(c), label)

    def cover(self, label, c=True):
        if label in self.covered:
            return
        if type(c) is SymBool:
            if self.g.feasible(c.e):
                self.g.covers.add(label)
        elif c:
            self.g.covers.add(label)

    def observe(self, key, value):
        self.g.observed.append((key, value))

    # -- logic
    def And(self, *xs):
        xs = api._flat(xs)
        return mkbool(z3.And([_b(bterm(x)) for x in xs])) if deep_sym(xs) else all(map(bool, xs))

    def Or(self, *xs):
        xs = api._flat(xs)
        return mkbool(z3.Or([_b(bterm(x)) for x in xs])) if deep_sym(xs) else any(map(bool, xs))

    def Not(self, x):
        return mkbool(z3.Not(x.e)) if type(x) is SymBool else not x

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        if deep_sym([a, b]):
            return mkbool(_b(bterm(a)) == _b(bterm(b)))
        return bool(a) == bool(b)

    def Ite(self, c, a, b):
        if type(c) is not SymBool:
            return a if c else b
        if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
            return mkbool(z3.If(c.e, _b(bterm(a)), _b(bterm(b))))
        ta, tb = term(a), term(b)
        if ta is None or tb is None:
            return a if c else b
        return mkint(z3.If(c.e, ta, tb))

    def eq(self, a, b):
        """Structural equality, as one term where that is possible."""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return self.And([self.eq(x, y) for x, y in zip(a, b)]) if a else True
        r = a == b
        return r

    def real(self, v):
        """Plain Python value (forks)."""
        if type(v) is SymStr:
            return v._realize()
        if type(v) is SymInt:
            return int(v)
        if type(v) is SymBool:
            return bool(v)
        if type(v) in (tuple, list):
            return type(v)(self.real(x) for x in v)
        return v


def eval_value(v, model):
    """Concrete counterpart of a value under a model (for comparing with a concrete run)."""

    def ev(t):
        r = model.eval(t, model_completion=True)
        return r

    if type(v) is SymInt:
        return ev(v.e).as_long()
    if type(v) is SymBool:
        return z3.is_true(ev(v.e))
    if type(v) is SymStr:
        lo = v.lo if isinstance(v.lo, int) else ev(v.lo).as_long()
        hi = v.hi if isinstance(v.hi, int) else ev(v.hi).as_long()
        return "".join(chr(c if isinstance(c, int) else ev(c).as_long()) for c in v.base[lo:hi])
    if type(v) in (tuple, list):
        return [eval_value(x, model) for x in v]
    if isinstance(v, dict):
        return {str(api.canon(eval_value(k, model))): eval_value(x, model) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted(str(api.canon(eval_value(x, model))) for x in v)
    return api.canon(v)
