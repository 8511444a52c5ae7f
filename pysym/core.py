"""
Path-exploring symbolic execution of ordinary Python code on top of z3.

The code under test is the real code imported from /repo.  It is executed with proxy values
(SymBool / SymInt / SymReal, see values.py) whose operators build z3 terms.  Whenever the real
code needs a Python truth value from a SymBool, the engine asks the solver which outcomes are
feasible under the current path condition and explores every feasible one, by re-executing the
harness (depth first, the solver's assertion stack is shared between consecutive paths).
Whenever the real code needs a concrete integer (indexing, range(), dict keys ...) the engine
enumerates, through the solver, every value the term can take.

A harness is a Python function taking a Ctx.  Ctx hands out inputs and records assertions.  The
same harness also runs in "concrete" mode: the inputs then are plain Python numbers taken from a
solver model and the code under test runs unmodified (no stubs), which is how counterexamples are
replayed and how path witnesses are validated against the implementation.
"""

import time
from fractions import Fraction

import z3


class EngineSignal(BaseException):
    """
    Base of the signals that must not be swallowed by `except Exception`.  (A bare `except:` in the
    code under test can still catch one; the engine therefore remembers the last one it raised.)
    """

    def __init__(self, *args):
        super(EngineSignal, self).__init__(*args)
        if _CURRENT is not None:
            _CURRENT.pending = self


class PathEnd(EngineSignal):
    """The current path is infeasible / cut by an assumption."""


class Inconclusive(EngineSignal):
    """The solver answered unknown, or a budget ran out."""


class Unsupported(EngineSignal):
    """A proxy was used in a way the engine cannot encode."""


class Violated(EngineSignal):
    """Raised to stop a path once an assertion on it has failed."""


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.cut = 0
        self.queries = 0
        self.decisions = 0
        self.solver_s = 0.0
        self.asserts = 0
        self.nontrivial_asserts = 0
        self.concretized = 0
        self.spurious = 0
        self.witnesses = []
        self.max_depth = 0

    def merge(self, o):
        for k in ("paths", "completed", "cut", "queries", "decisions", "asserts",
                  "nontrivial_asserts", "concretized", "spurious"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.solver_s += o.solver_s
        self.max_depth = max(self.max_depth, o.max_depth)


_CURRENT = None


def engine():
    if _CURRENT is None:
        raise Unsupported("symbolic value used outside an exploration")
    return _CURRENT


def to_bool_term(x):
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


SIMPLE = {}         # id -> condition that is already simplified (kept alive here)


class Engine(object):
    """Depth-first exploration of all feasible paths of a harness."""

    def __init__(self, timeout_ms=20000, max_paths=200000, deadline=None, witnesses=3,
                 max_depth=4000, on_violation=None):
        self.on_violation = on_violation
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.deadline = deadline
        self.want_witnesses = witnesses
        self.stats = Stats()
        self.trace = []          # list of [kind, payload, alternative_pending]
        self.pos = 0
        self.model = None
        self.violation = None
        self.symbols = []
        self._fresh = 0
        self.soft = []           # preferences used when a model is extracted
        self.pending = None
        self.reals = []

    # ------------------------------------------------------------------ solver access
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time budget of the check exhausted")
        t = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            r = self._retry(extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown: %s" % self.solver.reason_unknown())
        return r == z3.sat

    def _retry(self, extra):
        """A second opinion from fresh solvers before giving up."""
        for tac in ("qfnra-nlsat", "default"):
            try:
                if tac == "default":
                    s = z3.SimpleSolver()
                else:
                    s = z3.Then("simplify", "purify-arith", "solve-eqs", tac).solver()
                s.set("timeout", self.timeout_ms)
                for a in self.solver.assertions():
                    s.add(a)
                for a in extra:
                    s.add(a)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                self._retry_model = s.model() if r == z3.sat else None
                return r
        return z3.unknown

    def _get_model(self):
        self._retry_model = None
        try:
            return self.solver.model()
        except z3.Z3Exception:
            return self._retry_model

    def _push(self, term):
        self.solver.push()
        self.solver.add(term)

    # ------------------------------------------------------------------ path events
    def _model_says(self, cond):
        """True/False if the cached model decides cond, None if there is no usable model"""
        if self.model is None:
            return None
        try:
            v = self.model.eval(cond, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        """Decide a z3 Bool, forking if both outcomes are feasible"""
        if id(cond) not in SIMPLE:
            cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            self.pos += 1
            if ev[0] != "b" or not (ev[3] is cond or ev[3].eq(cond)):
                raise Unsupported("non-deterministic harness: %s vs %s" % (ev[3], cond))
            return ev[1]
        if len(self.trace) > self.max_depth:
            raise Inconclusive("path deeper than %d decisions" % self.max_depth)
        said = self._model_says(cond)
        if said is None:
            can_t = self._check(cond)
            if can_t:
                self.model = self._get_model()
                can_f = self._check(z3.Not(cond))
            else:
                can_f = True
        elif said:
            can_t = True
            can_f = self._check(z3.Not(cond))
        else:
            can_f = True
            can_t = self._check(cond)
            if can_t and can_f:
                self.model = self._get_model()
        if can_t:
            taken, pending = True, can_f
        else:
            taken, pending = False, False
        self.stats.decisions += 1
        self.trace.append(["b", taken, pending, cond])
        self.pos += 1
        self._push(cond if taken else z3.Not(cond))
        return taken

    def assume(self, cond):
        cond = z3.simplify(to_bool_term(cond))
        if z3.is_true(cond):
            return
        if self.pos < len(self.trace):
            self.pos += 1
            return
        self.trace.append(["a", None, False, cond])
        self.pos += 1
        self._push(cond)
        if self._model_says(cond) is not True:
            self.model = None
            if not self._check():
                raise PathEnd()
            self.model = self._get_model()

    def concretize_int(self, term):
        """Enumerate, through the solver, every value an Int term can take"""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        tries = 0
        while True:
            # replayed decisions carry the candidate value
            if self.pos < len(self.trace):
                ev = self.trace[self.pos]
                self.pos += 1
                if ev[0] == "v":
                    if ev[1]:
                        return ev[4]
                    continue
                raise Unsupported("non-deterministic harness (value/branch mismatch)")
            if self.model is None:
                if not self._check():
                    raise PathEnd()
                self.model = self._get_model()
            v = self.model.eval(term, model_completion=True)
            if not z3.is_int_value(v):
                raise Inconclusive("model does not decide %s" % term)
            v = v.as_long()
            tries += 1
            if tries > 5000:
                raise Inconclusive("too many values for %s" % term)
            other = self._check(term != v)
            self.stats.decisions += 1
            self.trace.append(["v", True, other, term == v, v])
            self.pos += 1
            self._push(term == v)
            return v

    def concretize_real(self, term):
        """
        Under-approximation used only when the real code forces a float out of a symbolic real
        (a C-level conversion).  The value is pinned to one solver-chosen value; this is counted and
        reported, the path is then explored for that value only.
        """
        term = z3.simplify(term)
        if z3.is_rational_value(term):
            return float(term.as_fraction())
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            self.pos += 1
            return ev[4]
        if self.model is None:
            if not self._check():
                raise PathEnd()
            self.model = self._get_model()
        v = self.model.eval(term, model_completion=True)
        f = model_number(v)
        self.stats.concretized += 1
        fr = Fraction(f)
        rv = z3.RealVal(str(fr))
        self.trace.append(["a", None, False, term == rv, f])
        self.pos += 1
        self._push(term == rv)
        if self._model_says(term == rv) is not True:
            self.model = None
            if not self._check():
                raise Inconclusive("cannot pin a real to a float")
            self.model = self._get_model()
        return f

    # ------------------------------------------------------------------ assertions
    def check_holds(self, cond, what):
        """Solver verdict for an assertion on the current path"""
        self.stats.asserts += 1
        cond = to_bool_term(cond)
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        self.stats.nontrivial_asserts += 1
        if not z3.is_false(s):
            neg = z3.Not(s)
            if not self._check(neg):
                return True
        else:
            neg = z3.BoolVal(True)
            if not self._check():
                raise PathEnd()
        # counterexample: prefer simple numbers
        model = self._nice_model(neg)
        self.violation = (what, model)
        raise Violated(what)

    def check_close(self, a, b, what, rtol, atol, bound):
        """
        a == b over the reals; if that fails, the two must still agree up to the given tolerance for
        all inputs of magnitude <= bound (constants of the code are binary floats, not exact decimals)
        """
        self.stats.asserts += 1
        eq = z3.simplify(a == b)
        if z3.is_true(eq):
            return True
        self.stats.nontrivial_asserts += 1
        if not z3.is_false(eq) and not self._check(z3.Not(eq)):
            return True

        def absv(t):
            return z3.If(t >= 0, t, -t)
        box = [z3.And(s[2] <= bound, s[2] >= -bound) for s in self.symbols if s[1] == "real"]
        # often the difference is tiny everywhere (rounded constants): a simpler question
        d = z3.simplify(a - b, som=True, hoist_mul=False)
        tol = z3.RealVal(str(atol))
        try:
            if not self._check(d > tol, *box) and not self._check(d < -tol, *box):
                return True
        except Inconclusive:
            pass
        bad = z3.And(absv(a - b) > z3.RealVal(str(rtol)) * (absv(a) + absv(b))
                     + z3.RealVal(str(atol)), *box)
        if not self._check(bad):
            return True
        model = self._nice_model(bad)
        self.violation = (what, model)
        raise Violated(what)

    def _nice_model(self, extra):
        self.solver.push()
        try:
            self.solver.add(extra)
            if not self._check():
                raise Inconclusive("lost a counterexample")
            m = self._get_model()
            self.solver.set("timeout", 2000)
            for group in self._preferences():
                self.solver.push()
                self.solver.add(*group)
                try:
                    t = time.time()
                    r = self.solver.check()
                    self.stats.solver_s += time.time() - t
                    self.stats.queries += 1
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.sat:
                    m = self.solver.model()
                    break
                self.solver.pop()
            else:
                return self._extract(m)
            out = self._extract(m)
            self.solver.pop()
            return out
        finally:
            self.solver.set("timeout", self.timeout_ms)
            self.solver.pop()

    def _preferences(self):
        reals = [s[2] for s in self.symbols if s[1] == "real"]
        ints = [s[2] for s in self.symbols if s[1] == "int"]
        soft = list(self.soft)
        yield soft + [z3.And(r >= -64, r <= 64, z3.IsInt(r * 4)) for r in reals] \
            + [z3.And(i >= -12, i <= 12) for i in ints] \
            + ([z3.Distinct(*reals)] if 1 < len(reals) < 40 else [])
        yield soft + [z3.And(r >= -1000, r <= 1000, z3.IsInt(r * 4)) for r in reals] \
            + [z3.And(i >= -200, i <= 200) for i in ints]
        yield soft + [z3.And(r >= -100000, r <= 100000) for r in reals]
        yield soft

    def _extract(self, m):
        out = {}
        for name, kind, term in self.symbols:
            v = m.eval(term, model_completion=True)
            if kind == "bool":
                out[name] = z3.is_true(v)
            elif kind == "int":
                out[name] = v.as_long()
            else:
                out[name] = str(Fraction(model_fraction(v)))
        return out

    # ------------------------------------------------------------------ inputs
    def symbol(self, name, kind):
        term = {"int": z3.Int, "real": z3.Real, "bool": z3.Bool}[kind](name)
        self.symbols.append((name, kind, term))
        return term

    # ------------------------------------------------------------------ exploration
    def explore(self, harness):
        """
        Run `harness(engine)` over every feasible path.  Returns None, or the violation found
        """
        global _CURRENT
        prev, _CURRENT = _CURRENT, self
        try:
            while True:
                if self.stats.paths >= self.max_paths:
                    raise Inconclusive("more than %d paths" % self.max_paths)
                self.pos = 0
                self.symbols = []
                self.soft = []
                self._fresh = 0
                self.stats.paths += 1
                self.pending = None
                try:
                    try:
                        harness(self)
                    except EngineSignal:
                        raise
                    except Exception:
                        if self.pending is None:
                            raise
                    if self.pending is not None:
                        raise self.pending
                    self.stats.completed += 1
                    self._witness()
                except PathEnd:
                    self.stats.cut += 1
                except Violated:
                    if self.on_violation is None or self.on_violation(*self.violation):
                        return self.violation
                    self.stats.spurious += 1
                self.stats.max_depth = max(self.stats.max_depth, len(self.trace))
                if not self._backtrack():
                    return None
        finally:
            _CURRENT = prev

    def _witness(self):
        # keep a spread of witnesses: the first ones and then ever rarer ones
        n = self.stats.completed
        if len(self.stats.witnesses) < self.want_witnesses and (n & (n - 1)) == 0:
            try:
                self.stats.witnesses.append(self._nice_model(z3.BoolVal(True)))
            except Inconclusive:
                pass

    def _backtrack(self):
        self.model = None
        # events beyond the point reached in the last run cannot exist
        while self.trace:
            ev = self.trace.pop()
            self.solver.pop()
            if ev[2]:
                if ev[0] == "b":
                    new = ["b", not ev[1], False, ev[3]]
                    self.trace.append(new)
                    self._push(z3.Not(ev[3]) if not new[1] else ev[3])
                else:
                    new = ["v", False, False, ev[3], ev[4]]
                    self.trace.append(new)
                    self._push(z3.Not(ev[3]))
                return True
        return False


def model_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return Fraction(str(v.approx(30).as_fraction()))
    raise Inconclusive("cannot extract a number from %s" % v)


def model_number(v):
    return float(model_fraction(v))
