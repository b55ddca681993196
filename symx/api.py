"""
Harness registry, and the context of a *concrete* run.  Nothing here needs Z3: the same harness files
run symbolically (symx.ctx) and, for replays, on plain Python values (ConcreteCtx).
"""
import importlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = []


class AssumeFailed(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label, detail=None):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Params(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError as e:
            raise AttributeError(k) from e


class Harness:
    def __init__(self, prop, fn, name, quick, thorough, cover, about, opts):
        self.prop = prop
        self.fn = fn
        self.name = name
        self.quick = quick
        self.thorough = thorough
        self.cover = list(cover)
        self.about = about
        self.opts = opts
        self.file = fn.__code__.co_filename

    def params(self, tier):
        p = dict(self.quick)
        if tier == "thorough" and self.thorough:
            p.update(self.thorough)
        return Params(p)


def harness(prop, name, quick=None, thorough=None, cover=(), about="", **opts):
    """Register a harness: ``fn(ctx, p)`` with ``p`` the bounds of the tier."""

    def deco(fn):
        REGISTRY.append(Harness(prop, fn, name, quick or {}, thorough or {}, cover, about, opts))
        return fn

    return deco


def load(prop=None):
    """Import the harness files (all, or those of one property)."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import pkgutil

    import rebulk

    for m in pkgutil.iter_modules(rebulk.__path__, "rebulk."):
        if not m.name.startswith("rebulk.test"):
            importlib.import_module(m.name)
    d = os.path.join(VERIF, "props")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_") and (prop is None or prop.lower() in f[:-3].split("_")):
            importlib.import_module("props." + f[:-3])
    return [h for h in REGISTRY if prop is None or h.prop == prop]


def canon(v, depth=0):
    """Comparable, printable form of a concrete value."""
    if v is None or type(v) in (bool, int, str, float):
        return v
    if type(v) is tuple or type(v) is list:
        return [canon(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {str(canon(k)): canon(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted(str(canon(x)) for x in v)
    if isinstance(v, type):
        return "<class " + v.__name__ + ">"
    if isinstance(v, BaseException):
        return "<" + type(v).__name__ + ">"
    return "<" + type(v).__name__ + ">"


class BaseCtx:
    """What harnesses see.  Sub-classes provide int/bool/string inputs and the logical verdicts."""

    symbolic = False

    # inputs that always fork
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def flag(self, name):
        return bool(self.bool(name))

    def pick(self, name, lo, hi):
        """Integer, forked to a concrete value."""
        return self.int(name, lo, hi).__index__()

    def subset(self, name, items):
        return [x for k, x in enumerate(items) if self.flag(f"{name}.{k}")]

    def symset(self, name, items):
        """Any subset of the items, as a set whose membership stays symbolic where that is possible."""
        conds = [(x, self.bool(f"{name}.{x}")) for x in items]
        if any(type(c) is not bool for _, c in conds):
            return self.make_symset(conds)
        return {x for x, c in conds if c}


class ConcreteCtx(BaseCtx):
    def __init__(self, values):
        self.vals = values
        self.names = {}
        self.observed = []
        self.checks = 0
        self.missing = []
        self.used = {}

    def fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def _get(self, name, default):
        name = self.fresh(name)
        if name not in self.vals:
            self.missing.append(name)
            return default
        self.used[name] = self.vals[name]
        return self.vals[name]

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def bool(self, name):
        return self._get(name, False)

    def string(self, name, alphabet, lo, hi):
        v = self._get(name, alphabet[0] * lo if alphabet else "")
        return v

    def hashval(self, name):
        return self._get(name, 0)

    def wrap(self, s):
        return s

    def fork_find(self):
        pass

    def assume(self, *cs):
        for c in cs:
            if not c:
                raise AssumeFailed()

    def check(self, c, label, detail=None):
        self.checks += 1
        if not c:
            raise CheckFailed(label, detail)

    def cover(self, label, c=True):
        pass

    def observe(self, key, value):
        self.observed.append([key, canon(value)])

    # logic over possibly symbolic values
    def And(self, *xs):
        return all(map(bool, _flat(xs)))

    def Or(self, *xs):
        return any(map(bool, _flat(xs)))

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def Ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def real(self, v):
        return v


def _flat(xs):
    if len(xs) == 1 and not isinstance(xs[0], (bool, int)) and hasattr(xs[0], "__iter__"):
        return list(xs[0])
    return list(xs)


def describe(exc):
    return f"{type(exc).__name__}: {exc}"[:300]


def harness_fault(e):
    """Exceptions raised in harness code itself that say the harness does not fit the code."""
    if isinstance(e, (ImportError, NameError)):
        return True
    if isinstance(e, TypeError):  # a changed signature; other type errors come from results of the wrong kind
        return "argument" in str(e) or "not callable" in str(e)
    return isinstance(e, AttributeError) and getattr(e, "obj", None) is not None


def innermost_repo_frame(exc):
    """File:line of the deepest frame inside the code under test, or None."""
    tb, hit = exc.__traceback__, None
    root = os.path.join(REPO, "rebulk")
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(root):
            hit = f"{os.path.relpath(f, REPO)}:{tb.tb_lineno}"
        tb = tb.tb_next
    return hit


def run_concrete(h, params, values):
    """One run on plain values.  Returns a JSON-able report."""
    ctx = ConcreteCtx(values)
    rep = {"result": "ok", "label": None, "detail": None}
    try:
        h.fn(ctx, params)
    except AssumeFailed:
        rep["result"] = "assume"
    except CheckFailed as e:
        rep.update(result="fail", label=e.label, detail=str(e.detail)[:500] if e.detail is not None else None)
    except Exception as e:  # the code under test (or the harness) raised
        rep.update(result="fail", label="exception " + type(e).__name__, detail=describe(e), where=innermost_repo_frame(e))
        if rep["where"] is None and harness_fault(e):
            rep["result"] = "harness-error"
    rep["observed"] = ctx.observed
    rep["checks"] = ctx.checks
    rep["missing"] = ctx.missing
    return rep
