"""Path exploration by re-execution: z3 decides which branches are feasible."""
import sys
import time
from fractions import Fraction

from .sym import (
    CURRENT, Infeasible, Steer, SymBool, SymNum, bterm, is_sym, term, z3,
)

SOLVER_TIMEOUT_MS = 20000


class EngineError(BaseException):
    """A limit of the machinery (never caught by `except Exception` in the code)."""


class Cut(Steer):
    """The path leaves the stated bounds."""

    def __init__(self, why):
        self.why = why


def z3_to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return int(f) if f.denominator == 1 else f
    if z3.is_algebraic_value(v):
        return z3_to_py(v.approx(20))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise EngineError("cannot read %s" % v)


class Stats:
    __slots__ = ("queries", "solver_s", "unknown", "unsat", "sat")

    def __init__(self):
        self.queries = self.unknown = self.unsat = self.sat = 0
        self.solver_s = 0.0

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Explorer:
    """One symbolic run of the code along a decision prefix."""

    symbolic = True

    def __init__(self, prefix=(), stats=None):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []  # alternative prefixes discovered on this run
        self.stats = stats or Stats()
        self.solver = z3.SolverFor("QF_LIRA") if False else z3.Solver()
        self.solver.set("timeout", SOLVER_TIMEOUT_MS)
        self.pc = []
        self.decided = {}
        self.inputs = {}  # name -> z3 term (declared symbols)
        self.env_log = []  # recorded environment answers (symbolic)
        self.fresh_n = 0
        self.local = []  # stack of local (merging) explorations
        self.notes = {}

    # ------------------------------------------------------------ solver
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def add(self, e):
        if e is True:
            return
        e = bterm(e)
        self.pc.append(e)
        self.solver.add(e)

    def assume(self, e):
        """Restrict the inputs; the path ends here if nothing satisfies it."""
        if e is True:
            return
        self.add(e)
        if len(self.trace) >= len(self.prefix):
            if self._check() == z3.unsat:
                raise Infeasible()

    # ------------------------------------------------------------ symbols
    def symbol(self, name, sort):
        if name in self.inputs:
            raise EngineError("symbol declared twice: " + name)
        v = z3.Int(name) if sort == "int" else z3.Real(name) if sort == "real" else z3.Bool(name)
        self.inputs[name] = v
        return v

    def fresh(self, base, sort="real"):
        self.fresh_n += 1
        name = "%s!%d" % (base, self.fresh_n)
        if sort == "int":
            return z3.Int(name)
        if sort == "bool":
            return z3.Bool(name)
        return z3.Real(name)

    # ------------------------------------------------------------ forking
    def _next_prefix(self):
        i = len(self.trace)
        if i < len(self.prefix):
            return True, self.prefix[i]
        return False, None

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.local:
            return self.local[-1].decide(e)
        # every non-constant test is recorded, also the implied ones: simplified
        # terms may differ between re-executions in the order of their parts
        d = self.decided.get(e)
        known, v = self._next_prefix()
        if known:
            tag, v = v
            if tag != "b" or (d is not None and d != v):
                raise EngineError("replay divergence: expected %s got branch" % tag)
        elif d is not None:
            v = d
        else:
            rt = self._check(e)
            if rt == z3.unsat:
                v = False
            else:
                rf = self._check(z3.Not(e))
                if rf == z3.unsat:
                    v = True
                else:
                    v = True
                    self.pending.append(self.trace + [("b", False)])
        self.trace.append(("b", v))
        if d is not None:
            return v
        lit = e if v else z3.Not(e)
        self.decided[e] = v
        if z3.is_not(e):
            self.decided[e.arg(0)] = not v
        self.solver.add(lit)
        self.pc.append(lit)
        return v

    def choose(self, options, tag="c"):
        """options: list of (label, constraint|True). Forks over all feasible."""
        if self.local:
            raise EngineError("choice inside merged evaluation")
        known, v = self._next_prefix()
        if known:
            t, v = v
            if t != tag:
                raise EngineError("replay divergence: expected %s got %s" % (t, tag))
        else:
            feas = []
            for i, (lab, c) in enumerate(options):
                if c is True or (is_sym(c) or isinstance(c, z3.BoolRef)):
                    if c is True or self._check(bterm(c)) != z3.unsat:
                        feas.append(i)
                elif c:
                    feas.append(i)
            if not feas:
                raise Infeasible()
            v = feas[0]
            for i in reversed(feas[1:]):
                self.pending.append(self.trace + [(tag, i)])
        self.trace.append((tag, v))
        lab, c = options[v]
        self.add(c)
        return lab

    def choose_vector(self, bools, extra=()):
        """Fork over all truth assignments of `bools` feasible now (all-SAT)."""
        if self.local:
            raise EngineError("choice inside merged evaluation")
        known, v = self._next_prefix()
        if known:
            t, v = v
            if t != "v":
                raise EngineError("replay divergence: expected %s got v" % t)
        else:
            vecs = self.allsat(bools)
            if not vecs:
                raise Infeasible()
            v = vecs[0]
            for w in reversed(vecs[1:]):
                self.pending.append(self.trace + [("v", w)])
        self.trace.append(("v", v))
        for b, x in zip(bools, v):
            self.add(b if x else z3.Not(b))
        return v

    def allsat(self, bools, limit=4000):
        vecs = []
        self.solver.push()
        try:
            while True:
                r = self._check()
                if r != z3.sat:
                    if r == z3.unknown:
                        raise EngineError("solver unknown in all-SAT")
                    break
                m = self.solver.model()
                v = tuple(z3.is_true(m.eval(b, model_completion=True)) for b in bools)
                vecs.append(v)
                if len(vecs) > limit:
                    raise EngineError("all-SAT limit")
                self.solver.add(z3.Or([z3.Not(b) if x else b for b, x in zip(bools, v)]))
        finally:
            self.solver.pop()
        vecs.sort(reverse=True)
        return vecs

    def choose_flag(self, c):
        """Is `c` satisfiable here?  True: the path continues with c (the caller
        asserts it); False: c is impossible for every input of this path."""
        known, v = self._next_prefix()
        if known:
            t, v = v
            if t != "g":
                raise EngineError("replay divergence: expected %s got g" % t)
        else:
            v = self._check(c) != z3.unsat
        self.trace.append(("g", v))
        return v

    def concretize_int(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        known, v = self._next_prefix()
        if self.local:
            raise EngineError("concretisation inside merged evaluation")
        if known:
            tag, v = v
            if tag != "i":
                raise EngineError("replay divergence: expected %s got i" % tag)
        else:
            vals = []
            self.solver.push()
            try:
                while True:
                    if self._check() != z3.sat:
                        break
                    x = self.solver.model().eval(t, model_completion=True).as_long()
                    vals.append(x)
                    if len(vals) > 64:
                        raise Cut("integer concretised over more than 64 values")
                    self.solver.add(t != x)
            finally:
                self.solver.pop()
            if not vals:
                raise Infeasible()
            vals.sort()
            v = vals[0]
            for w in reversed(vals[1:]):
                self.pending.append(self.trace + [("i", w)])
        self.trace.append(("i", v))
        self.add(t == v)
        return v

    def concretize_real(self, t):
        raise Cut("symbolic value passed where a machine float is required")

    # ------------------------------------------------------------ merging
    def merged(self, fn, limit=512):
        """Evaluate fn() without forking the run: all its branches, guarded.

        Returns [(guard, value)], guards are mutually exclusive and cover the
        current path condition.
        """
        out = []
        stack = [[]]
        while stack:
            pre = stack.pop()
            loc = _Local(self, pre, stack)
            self.local.append(loc)
            try:
                val = fn()
                ok = True
            except Infeasible:
                ok = False
            finally:
                self.local.pop()
            if ok:
                out.append((z3.And([z3.BoolVal(True)] + loc.lits), val))
            if len(out) > limit:
                raise EngineError("merge limit")
        return out

    # ------------------------------------------------------------ verdict
    def model_for(self, neg):
        """A model of the path condition and `neg`, or None; 'unknown' counted."""
        r = self._check(neg)
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unknown:
            # a second, independent attempt
            s = z3.Tactic("default").solver() if False else z3.SimpleSolver()
            s.set("timeout", SOLVER_TIMEOUT_MS)
            s.add(self.pc)
            s.add(neg)
            t = time.time()
            r2 = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r2 == z3.sat:
                return s.model()
            if r2 == z3.unknown:
                raise EngineError("solver answered unknown on an obligation")
        return None


class _Local:
    def __init__(self, ex, prefix, stack):
        self.ex = ex
        self.prefix = prefix
        self.stack = stack
        self.trace = []
        self.lits = []
        self.seen = {}

    def decide(self, e):
        if e in self.ex.decided:
            return self.ex.decided[e]
        if e in self.seen:
            return self.seen[e]
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            rt = self.ex._check(*(self.lits + [e]))
            if rt == z3.unsat:
                v = False
            else:
                rf = self.ex._check(*(self.lits + [z3.Not(e)]))
                v = True
                if rf != z3.unsat:
                    self.stack.append(self.trace + [False])
        self.trace.append(v)
        self.seen[e] = v
        self.lits.append(e if v else z3.Not(e))
        return v
