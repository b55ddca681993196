"""
Path exploration core.

One *run* executes a harness from the start.  Every time the code under test needs the truth
value of a symbolic condition it calls :meth:`Engine.branch`; Z3 decides which sides are feasible
under the path condition, one is taken, the other is put on the work list as a decision prefix.
Re-execution with a prefix replays decisions without solver work (the solver stack is kept aligned
with the shared part of the prefix).
"""
import time

import z3

ENGINE = None  # the engine of the current run (one per process)


class PathAbort(BaseException):
    """The current path is outside the assumed preconditions."""


class Inconclusive(BaseException):
    """Z3 answered unknown, or a bound of the engine was hit."""


class Violation(BaseException):
    """An assertion can fail on this path; carries the model."""

    def __init__(self, label, model):
        super().__init__(label)
        self.label = label
        self.model = model


class Diverged(BaseException):
    """Re-execution did not follow the recorded decisions (non-determinism)."""


class HashBlowup(BaseException):
    """Too many symbolic values were enumerated because they were hashed: use the rewritten tables."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.asserts = 0
        self.asserts_solver = 0
        self.max_depth = 0
        self.hashed = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    def __init__(self, solver_timeout_ms=60000):
        self.solver = z3.SolverFor("QF_LIA")
        self.solver.set("timeout", solver_timeout_ms)
        self.stats = Stats()
        self.stack = []  # asserted expressions, one solver scope each
        self.inputs = []
        self.reset([])
        self.max_decisions = 20000
        self.max_hashed = 0
        self.created = time.time()

    # -- run management ---------------------------------------------------------------
    def reset(self, prefix, model=None):
        self.prefix = prefix
        self.paranoid = False
        self.fork_find = False
        self.trace = []  # decisions of this run: bit0 = taken, bit1 = forced
        self.depth = 0  # number of asserted expressions of this run
        self.model = model
        self.model_ok = model is not None
        self.pending = []  # (prefix, model) found in this run
        self.inputs = []  # (name, kind, payload)
        self.names = {}
        self.memo = {}
        self.keep = []
        self.observed = []
        self.covers = set()
        self.checks = 0
        self.idmap = {}
        self.idkeep = []

    def _assert(self, e):
        """Assert on the path; reuses the scope of the previous run when identical."""
        if self.depth < len(self.stack):
            if self.stack[self.depth].eq(e):
                self.depth += 1
                return
            self.solver.pop(len(self.stack) - self.depth)
            del self.stack[self.depth:]
        self.solver.push()
        self.solver.add(e)
        self.stack.append(e)
        self.depth += 1

    def _sync(self):
        if self.depth < len(self.stack):
            self.solver.pop(len(self.stack) - self.depth)
            del self.stack[self.depth:]

    def _check(self, *extra):
        self._sync()
        t = time.perf_counter()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown: " + self.solver.reason_unknown())
        return m

    def _ensure_model(self):
        if not self.model_ok:
            m = self._check()
            if m is None:
                raise PathAbort()
            self.model = m
            self.model_ok = True
        return self.model

    def final_model(self):
        """A model of the complete path condition (None: the path is infeasible)."""
        if len(self.trace) < len(self.prefix):
            raise Diverged(f"path ended after {len(self.trace)} of {len(self.prefix)} decisions")
        return self._ensure_model()

    # -- primitives used by the proxies -----------------------------------------------
    def constrain(self, e):
        """Add an assumption (declared domain or ctx.assume)."""
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort()
        self._assert(e)
        if self.model_ok and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model_ok = False

    def assume(self, e):
        """Constrain, and leave the path when nothing is left of it."""
        self.constrain(e)
        if len(self.trace) >= len(self.prefix):  # a model of part of the prefix would be of no use
            self._ensure_model()

    def branch(self, e):
        """Truth value of the symbolic condition ``e`` on this path."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            taken = bool(d & 1)
            if not d & 2:
                self._assert(e if taken else z3.Not(e))
            if self.model_ok and (pos == len(self.prefix) - 1 or self.paranoid):
                if z3.is_true(self.model.eval(e, model_completion=True)) != taken:
                    raise Diverged(f"decision {pos}: {e}")
        elif key in self.memo:
            # always recorded, so that replay does not depend on which terms happen to be shared
            taken = self.memo[key]
            d = (1 if taken else 0) | 2
        else:
            if pos > self.max_decisions:
                raise Inconclusive("too many decisions on one path")
            m = self._ensure_model()
            self.stats.decisions += 1
            taken = z3.is_true(m.eval(e, model_completion=True))
            other = self._check(z3.Not(e) if taken else e)
            if other is None:
                d = (1 if taken else 0) | 2
            else:
                d = 1 if taken else 0
                self.pending.append((tuple(self.trace) + (1 - d,), other))
                self._assert(e if taken else z3.Not(e))
        self.trace.append(d)
        self.memo[key] = taken
        self.keep.append(e)
        return taken

    def enumerating(self, fn):
        """``fn()``, which makes a symbolic value concrete because it is being hashed."""
        known = len(self.memo)
        v = fn()
        if len(self.memo) > known and len(self.trace) > len(self.prefix):
            self.stats.hashed += 1
            n = self.stats.hashed
            if self.max_hashed and (n > self.max_hashed or n > self.max_hashed / 60 and time.time() > self.created + 40):
                raise HashBlowup()
        return v

    def concretize(self, e):
        """Python int value of ``e``: forks over every feasible value."""
        if z3.is_int_value(e):
            return e.as_long()
        key = ("val", e.get_id())
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                v = self.prefix[pos]
            elif key in self.memo:
                v = self.memo[key]
            else:
                if pos > self.max_decisions:
                    raise Inconclusive("too many decisions on one path")
                v = self._ensure_model().eval(e, model_completion=True).as_long()
            self.trace.append(v)
            if self.branch(e == v):
                self.memo[key] = v
                self.keep.append(e)
                return v

    def check(self, e, label):
        """Assert ``e`` for every value on this path."""
        self.checks += 1
        self.stats.asserts += 1
        if e is True or (not isinstance(e, bool) and z3.is_true(e)):
            return
        if e is False or z3.is_false(e):
            raise Violation(label, self._ensure_model())
        self.stats.asserts_solver += 1
        m = self._check(z3.Not(e))
        if m is not None:
            raise Violation(label, m)

    def feasible(self, e):
        if isinstance(e, bool):
            return e
        return self._check(e) is not None

    def fresh_name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    # -- model to Python values ---------------------------------------------------------
    def values(self, model):
        out = {}
        for name, kind, payload in self.inputs:
            if kind == "int":
                out[name] = model.eval(payload, model_completion=True).as_long()
            elif kind == "bool":
                out[name] = z3.is_true(model.eval(payload, model_completion=True))
            elif kind == "str":
                chars, length = payload
                n = length if isinstance(length, int) else model.eval(length, model_completion=True).as_long()
                out[name] = "".join(
                    chr(c if isinstance(c, int) else model.eval(c, model_completion=True).as_long()) for c in chars[:n]
                )
        return out

    def block(self, model):
        """Constraint excluding this very assignment of the inputs."""
        parts = []
        for name, kind, payload in self.inputs:
            if kind == "int":
                parts.append(payload == model.eval(payload, model_completion=True))
            elif kind == "bool":
                parts.append(payload == model.eval(payload, model_completion=True))
            else:
                chars, length = payload
                if not isinstance(length, int):
                    n = model.eval(length, model_completion=True)
                    parts.append(length == n)
                    n = n.as_long()
                else:
                    n = length
                parts.extend(c == model.eval(c, model_completion=True) for c in chars[:n] if not isinstance(c, int))
        return z3.Not(z3.And(parts)) if parts else z3.BoolVal(False)
