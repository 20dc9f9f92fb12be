"""The environment of vrpy: LP/MIP solver, cspy, clock, randomness.

Everything outside vrpy is replaced by its contract, before vrpy is imported:

* pulp.LpProblem.solve / resolve  - "Optimal" with *any* assignment satisfying
  every constraint, bound and integrality requirement of the problem object the
  real code built (optionally: with minimal objective), or "Infeasible" when the
  problem has none; dual values are arbitrary with the right sign (or given).
* cspy.BiDirectional.run - *any* Source-Sink walk whose resources, accumulated
  with the real res_cost arrays / the real REF callback, stay within max_res
  (optionally: of minimal cost among elementary ones), or no path.
* time.time - arbitrary non-decreasing instants (or a constant clock).
* random.choice / RandomState.choice - arbitrary element.

In replay (concrete) mode the same stubs read a script and re-check it against
the contract.
"""
import itertools
import logging
import math
import os
import sys
from fractions import Fraction

from .sym import (
    CURRENT, And, Implies, Infeasible, Ite, Not, Or, SymBool, SymNum, bterm,
    is_sym, num_term, smax, smin, term, to_real, z3,
)
from .explore import Cut, EngineError

REPO = os.environ.get("VP_REPO") or "/repo"  # another tree only for experiments


class Policy:
    """What the scenario allows the environment to do (reset per run)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.duals = "sym"  # "sym" | callable(prob, name, constraint) -> value
        self.dual_bound = 60000
        self.lp_optimal = lambda prob: False
        self.cspy_optimal = False
        self.cspy_any_walk_extra = 1  # walks up to n_customers + extra + 1 edges
        self.cspy_none = True  # cspy may report "no path" (only if not optimal)
        self.cspy_filter = None  # callable(path) -> bool restricts walks
        self.lp_fail = lambda prob: False  # solver may give up (time limit)
        self.clock = None  # None: constant clock; callable(k) -> value
        self.knapsack_stub = False
        self.on_lp = []  # observers fn(prob, sol)
        self.on_cspy = []
        self.sub_infeasible = False
        self.max_time_calls = 400
        self.greedy_runs = 1  # repetitions of the randomised greedy search
        self.choice_budget = 12  # random choices explored; later ones take the first
        self.grain = None  # values of continuous variables are multiples of 1/grain (exact as floats)
        self.deterministic = False  # equal problems get equal answers, across problem objects


POLICY = Policy()


class RunState:
    def __init__(self):
        self.lp_calls = []  # [(prob, LpSolution)]
        self.cspy_calls = []
        self.time_calls = 0
        self.last_time = None
        self.n_choice = 0
        self.events = []  # ("time", t) | ("lp", prob, limit, sol) | ("cspy", alg, limit)
        self.memo_lp = []
        self.memo_cspy = []


STATE = RunState()


def reset():
    global STATE
    STATE = RunState()
    POLICY.reset()
    _det_hash_counter[0] = 0


def state():
    return STATE


# ---------------------------------------------------------------- helpers
def caller_is_vrpy(depth=2):
    try:
        return sys._getframe(depth).f_globals.get("__name__", "").startswith("vrpy")
    except ValueError:
        return False


def frac(x):
    if is_sym(x):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    x = float(x)
    return int(x) if x.is_integer() else Fraction(repr(x))


# ---------------------------------------------------------------- LP stub
class LpSolution:
    """One answer of the LP/MIP solver to one problem object."""

    def __init__(self, prob, status):
        self.prob = prob
        self.status = status
        self.bools = []  # (var, z3 bool)
        self.ints = []  # (var, z3 int)
        self.reals = []
        self.values = {}  # var name -> value (concrete or SymNum)
        self.duals = {}
        self.handed = []
        self.pinned = False
        self.sig = None

    def pin(self):
        """The code looks at the solution: fork over its integral part."""
        if self.pinned:
            return
        self.pinned = True
        ex = CURRENT.ex
        if self.bools:
            vec = ex.choose_vector([b for _, b in self.bools])
            total = {}
            for (v, b), x in zip(self.bools, vec):
                total[v.name] = total.get(v.name, 0) + int(x)
            for v, b in self.bools:
                self._set(v, total[v.name])

    def _set(self, v, x):
        old = v.varValue
        if type(old) is SymNum:
            old.e = num_term(x)
            old.origin = None
            old.bin = None
        if v.varValue is old:
            v.varValue = x
        self.values[v.name] = x


def lp_vars(prob):
    seen = {}
    for c in list(prob.constraints.values()) + ([prob.objective] if prob.objective is not None else []):
        for v in c.keys():
            seen.setdefault(v.name, v)
            if seen[v.name] is not v:
                raise EngineError("two LP variables called " + v.name)
    return [seen[k] for k in sorted(seen)]


def signature(prob):
    cons = tuple(
        (n, c.sense, str(c.constant), tuple((v.name, str(x)) for v, x in c.items()))
        for n, c in prob.constraints.items()
    )
    vs = tuple((v.name, v.cat, str(v.lowBound), str(v.upBound)) for v in lp_vars(prob))
    return (cons, vs)


def row_expr(c, val):
    """value of the row sum(coef*var)+constant under the valuation `val`"""
    s = c.constant
    for v, x in c.items():
        xv = val(v)
        if type(xv) in (int, float) and xv == 0:
            continue
        s = s + xv * x
    return s


def row_holds(c, val):
    s = row_expr(c, val)
    if type(s) is SymNum and s.origin is not None:
        # a bare variable: stating the row is not looking at the answer
        s = SymNum(s.e, s.kind)
    if c.sense == 0:
        return s == 0
    if c.sense > 0:
        return s >= 0
    return s <= 0


def stub_solve(prob, solver=None, **kw):
    ex = CURRENT.ex
    sig = signature(prob)
    # a deterministic solver gives the same answer to the same problem
    for p, sol in reversed(STATE.lp_calls):
        if p is prob and sol.sig == sig and getattr(prob, "_vp_last", None) is sol:
            prob.assignStatus(sol.status)
            return prob.status
        if p is prob:
            break
    sol = _lp_again(ex, prob) if POLICY.deterministic else None
    if sol is not None:
        pass
    elif ex.symbolic:
        sol = _solve_symbolic(ex, prob)
        ex.env_log.append(("lp", sol))
    else:
        sol = ex.scripted_lp(prob)
    if POLICY.deterministic:
        STATE.memo_lp.append((_lp_numbers(prob), sol))
    STATE.events.append(("lp", prob, limit_of(solver), sol))
    sol.sig = sig
    prob._vp_last = sol
    STATE.lp_calls.append((prob, sol))
    prob.assignStatus(sol.status)
    for f in POLICY.on_lp:
        f(prob, sol)
    return prob.status


def _lp_numbers(prob):
    """(shape, numbers) of a problem: equal shapes and numbers, equal problems"""
    shape, nums = [], []

    def num(x):
        if x is None or isinstance(x, str):
            shape.append(x)
        else:
            shape.append("#")
            nums.append(x)

    for n, c in prob.constraints.items():
        shape.append((c.sense, len(c)))
        num(c.constant)
        for v, x in c.items():
            shape.append(v.name)
            num(x)
    shape.append("objective")
    if prob.objective is not None:
        num(prob.objective.constant)
        for v, x in prob.objective.items():
            shape.append(v.name)
            num(x)
    for v in lp_vars(prob):
        shape.append((v.name, v.cat))
        num(v.lowBound)
        num(v.upBound)
    return tuple(shape), nums


def _same(ex, nums, old):
    """is this the same list of numbers as an earlier one? (forks if open)"""
    conds = []
    for a, b in zip(nums, old):
        if is_sym(a) or is_sym(b):
            if is_sym(a) and is_sym(b) and type(a) is type(b) and a.e.eq(b.e):
                continue
            conds.append(a == b)
        elif a != b and abs(a - b) > 1e-9:
            return False
    c = And(*conds)
    if c is True or c is False:
        return c
    return bool(c)


def _lp_again(ex, prob):
    shape, nums = _lp_numbers(prob)
    for (s0, n0), sol in STATE.memo_lp:
        if s0 != shape or not _same(ex, nums, n0):
            continue
        new = LpSolution(prob, sol.status)
        new.optimal = getattr(sol, "optimal", False)
        if sol.bools and not sol.pinned:
            sol.pin()
        for v in lp_vars(prob):
            v.varValue = sol.values[v.name]
            new.values[v.name] = v.varValue
        for (n, c), d in zip(prob.constraints.items(), sol.duals.values()):
            c.pi = d
            new.duals[n] = d
        new.pinned = True
        return new
    return None


def stub_resolve(prob, solver=None, **kw):
    return stub_solve(prob, solver)


def _has_sym_objective(prob):
    return prob.objective is not None and any(is_sym(x) for x in prob.objective.values())


def _solve_symbolic(ex, prob):
    import pulp

    vs = lp_vars(prob)
    sol = LpSolution(prob, pulp.LpStatusOptimal)
    k = len(STATE.lp_calls)
    val = {}
    cons = []
    for v in vs:
        lo, up = v.lowBound, v.upBound
        if lo is not None and up is not None and not is_sym(lo) and not is_sym(up) and lo == up:
            sol.values[v.name] = lo
            v.varValue = lo
            val[v.name] = lo
            continue
        if v.cat == pulp.LpInteger and not is_sym(lo) and not is_sym(up) and lo == 0 and up == 1:
            b = ex.fresh("lp%d_%s" % (k, v.name), "bool")
            s = SymNum(z3.If(b, z3.IntVal(1), z3.IntVal(0)), "float", bin=b, origin=sol)
            sol.bools.append((v, b))
        elif v.cat == pulp.LpInteger and 1 <= _small_bound(prob, v) <= 3:
            # digits in unary
            bs = [ex.fresh("lp%d_%s" % (k, v.name), "bool") for _ in range(_small_bound(prob, v))]
            t = z3.Sum([z3.If(b, z3.IntVal(1), z3.IntVal(0)) for b in bs]) if len(bs) > 1 else z3.If(
                bs[0], z3.IntVal(1), z3.IntVal(0))
            s = SymNum(t, "float", origin=sol)
            for b in bs:
                sol.bools.append((v, b))
            for b1, b2 in zip(bs[:-1], bs[1:]):
                cons.append(z3.Implies(b2, b1))
        elif v.cat == pulp.LpInteger:
            t = ex.fresh("lp%d_%s" % (k, v.name), "int")
            s = SymNum(t, "float")
            sol.ints.append((v, t))
            if lo is not None:
                cons.append(t >= term(lo))
            if up is not None:
                cons.append(t <= term(up))
        else:
            if POLICY.grain:
                t = z3.ToReal(ex.fresh("lp%d_%s" % (k, v.name), "int")) / POLICY.grain
            else:
                t = ex.fresh("lp%d_%s" % (k, v.name), "real")
            s = SymNum(t, "float")
            sol.reals.append((v, t))
            if lo is not None:
                cons.append(t >= to_real(term(lo)))
            if up is not None:
                cons.append(t <= to_real(term(up)))
        val[v.name] = s
        sol.values[v.name] = s
        v.varValue = s
    rows = list(prob.constraints.items())
    twins = _twin_rows(rows)
    for n, c in rows:
        if n in twins:
            continue
        h = row_holds(c, lambda v: val[v.name])
        if h is True:
            continue
        if h is False:
            cons.append(z3.BoolVal(False))
        else:
            cons.append(bterm(h))
    # interchangeable columns: the solver takes the earliest ones
    for b1, b2 in _interchangeable(prob, sol):
        cons.append(z3.Implies(b2, b1))
    # relaxed master with symbolic costs: keep the objective linear by taking a
    # 0/1 point of the relaxation (its values are not used except in the
    # objective)
    if sol.reals and not sol.bools and _has_sym_objective(prob):
        cons = _integral_point(ex, prob, sol, val, rows, cons, k)
    # give up (time limit) ?
    if POLICY.lp_fail(prob):
        if ex.choose([("solve", True), ("fail", True)], "f") == "fail":
            return _no_solution(sol, vs, pulp.LpStatusNotSolved, prob)
    feasible = True
    if cons:
        known = len(ex.trace) < len(ex.prefix)
        if POLICY.sub_infeasible:
            opts = [("sat", z3.And(cons)), ("inf", True)]
            feasible = ex.choose(opts, "s") == "sat"
            if not feasible:
                ex.add(_infeasible_formula(ex, prob, sol, cons))
                ex.assume(z3.BoolVal(True))
        else:
            # the branch flag: is the problem feasible for some inputs here?
            r = ex.choose_flag(z3.And(cons))
            feasible = r
    if not feasible:
        return _no_solution(sol, vs, pulp.LpStatusInfeasible, prob)
    if not POLICY.sub_infeasible:
        for c in cons:
            ex.add(c)
    if POLICY.lp_optimal(prob):
        _assert_optimal(ex, prob, sol, val, vs)
    # duals
    for n, c in rows:
        c.pi = 0 if n in twins else _dual(ex, prob, n, c, k)
        sol.duals[n] = c.pi
        c.slack = None
    return sol


def _small_bound(prob, v):
    """largest value an integer variable with lower bound 0 can take (0: unknown)"""
    lo, up = v.lowBound, v.upBound
    if is_sym(lo) or is_sym(up) or lo is None or lo != 0:
        return 0
    best = up if up is not None else 99
    if up is None:
        for c in prob.constraints.values():
            x = c.get(v, 0)
            if c.sense > 0 or is_sym(x) or x <= 0 or is_sym(c.constant):
                continue
            if any(is_sym(y) or y < 0 or w.lowBound is None or is_sym(w.lowBound) or w.lowBound < 0
                   for w, y in c.items()):
                continue
            best = min(best, -c.constant / x)
    return int(best)


def _twin_rows(rows):
    """names of rows that repeat an earlier row literally (their dual is 0: an
    optimal dual solution of that form always exists)"""
    if len(rows) < 60:
        return ()
    seen, twins = set(), set()
    for n, c in rows:
        if is_sym(c.constant) or any(is_sym(x) for x in c.values()):
            continue
        k = (c.sense, c.constant, tuple((v.name, x) for v, x in c.items()))
        if k in seen:
            twins.add(n)
        seen.add(k)
    return twins


def _integral_point(ex, prob, sol, val, rows, cons, k):
    s = z3.Solver()
    s.add(cons)
    for v, t in sol.reals:
        s.add(z3.Or(t == 0, t == 1))
    if s.check() != z3.sat:
        return cons
    m = s.model()
    for v, t in sol.reals:
        val[v.name] = 1 if z3.is_true(m.eval(t == 1, model_completion=True)) else 0
    left = [h for h in (row_holds(c, lambda v: val[v.name]) for _, c in rows) if h is not True]
    if left:
        # no point is right for every value of the data: leave it open
        left = []
        for v, t in sol.reals:
            b = ex.fresh("lp%d_%s" % (k, v.name), "bool")
            val[v.name] = SymNum(z3.If(b, z3.IntVal(1), z3.IntVal(0)), "float", bin=b)
        for _, c in rows:
            h = row_holds(c, lambda v: val[v.name])
            if h is not True:
                left.append(bterm(h))
        if not ex.choose_flag(z3.And(left)):
            for v, t in sol.reals:
                val[v.name] = v.varValue
            return cons
    for v, t in sol.reals:
        sol.values[v.name] = v.varValue = val[v.name]
    sol.reals = []
    return left


def _interchangeable(prob, sol):
    names = [v.name for v, _ in sol.bools]
    cols = {n: [] for n in names if names.count(n) == 1}
    if len(cols) < 2:
        return
    for n, c in list(prob.constraints.items()) + [("obj", prob.objective or {})]:
        for v, x in c.items():
            if v.name in cols:
                cols[v.name].append((n, str(x) if is_sym(x) else float(x)))
    seen = {}
    order = sorted(sol.bools, key=lambda p: getattr(p[0], "_vp_seq", 0))
    for v, b in order:
        if v.name not in cols:
            continue
        k = tuple(cols[v.name])
        if k in seen:
            yield seen[k], b
        seen[k] = b


def _no_solution(sol, vs, status, prob):
    sol.status = status
    sol.bools, sol.ints, sol.reals = [], [], []
    for v in vs:
        if status == 0:
            v.varValue = None
        else:
            # infeasible: the solver leaves meaningless values behind
            v.varValue = 0 if v.varValue is None or is_sym(v.varValue) else v.varValue
        sol.values[v.name] = v.varValue
    for n, c in prob.constraints.items():
        c.pi = 0
        sol.duals[n] = 0
    return sol


def _dual(ex, prob, name, c, k):
    if callable(POLICY.duals):
        d = POLICY.duals(prob, name, c)
        if d is not None:
            return d
        return 0
    if not c.keys():
        return 0
    t = ex.fresh("pi%d_%s" % (k, name), "int")
    B = 2 * POLICY.dual_bound
    if c.sense > 0:
        ex.add(z3.And(t >= 0, t <= B))
    elif c.sense < 0:
        ex.add(z3.And(t <= 0, t >= -B))
    else:
        ex.add(z3.And(t >= -B, t <= B))
    return SymNum(z3.ToReal(t) / 2, "float")


# ---- optimality over the integral vectors of the problem
def _fixed(sol, vec):
    fix = {}
    for (v, _), x in zip(sol.bools, vec):
        fix[v.name] = fix.get(v.name, 0) + int(x)
    return fix


def _bmap(sol):
    bmap = {}
    for v, b in sol.bools:
        bmap.setdefault(v.name, []).append(b)
    return bmap


def _fixed_rows(prob, sol, vec):
    """rows with the binaries fixed: list of (coefs{var:coef}, const, sense)"""
    fix = _fixed(sol, vec)
    out = []
    for n, c in prob.constraints.items():
        const = c.constant
        co = {}
        for v, x in c.items():
            if v.name in fix:
                if fix[v.name]:
                    const = const + x * fix[v.name]
            elif v.name in sol.values and not is_sym(sol.values[v.name]):
                const = const + x * sol.values[v.name]
            else:
                co[v.name] = co.get(v.name, 0) + x
        out.append((co, const, c.sense))
    return out


def exists_aux(ex, prob, sol, vec, extra=()):
    """formula: the continuous/integer rest of the problem is satisfiable (with
    the `extra` rows sum + const < 0)"""
    rows = _fixed_rows(prob, sol, vec)
    aux = {}
    for v, t in sol.ints + sol.reals:
        aux[v.name] = v
    ineqs = []  # (coefs, const)  meaning  sum + const <= 0
    intnames = {v.name for v, _ in sol.ints}
    for co, const, sense in rows:
        if any(is_sym(x) for x in co.values()):
            raise EngineError("symbolic coefficient on a continuous variable")
        co = {k: frac(x) for k, x in co.items() if x != 0}
        if sense <= 0:
            ineqs.append((co, const, False))
        if sense >= 0:
            ineqs.append(({k: -x for k, x in co.items()}, -const, False))
    for co, const in extra:
        ineqs.append(({k: frac(x) for k, x in co.items()}, const, True))
    for n, v in aux.items():
        if v.lowBound is not None:
            ineqs.append(({n: -1}, v.lowBound, False))
        if v.upBound is not None:
            ineqs.append(({n: 1}, -v.upBound, False))
    return eliminate(ineqs, intnames)


def _neg(const, strict):
    return const < 0 if strict else const <= 0


def eliminate(ineqs, intnames):
    """Exists over all variables of {sum co*x + const <= 0}: quantifier free."""
    conj = []
    # connected components
    comp = {}

    def find(a):
        while comp[a] != a:
            a = comp[a]
        return a

    for co, _, _ in ineqs:
        for n in co:
            comp.setdefault(n, n)
        ns = list(co)
        for a in ns[1:]:
            ra, rb = find(ns[0]), find(a)
            if ra != rb:
                comp[ra] = rb
    groups = {}
    seen = set()
    for co, const, strict in ineqs:
        if not co:
            c = _neg(const, strict)
            if c is False:
                return False
            if c is not True:
                conj.append(c)
            continue
        if not is_sym(const):
            k = (tuple(sorted(co.items())), const, strict)
            if k in seen:
                continue
            seen.add(k)
        groups.setdefault(find(next(iter(co))), []).append((co, const, strict))
    for g in groups.values():
        if not any(is_sym(c) for _, c, _ in g):
            s = z3.Solver()
            vs = {}
            for co, const, strict in g:
                e = num_term(const)
                for n, x in co.items():
                    if n not in vs:
                        vs[n] = z3.Int(n) if n in intnames else z3.Real(n)
                    e = e + num_term(x) * vs[n]
                s.add(e < 0 if strict else e <= 0)
            if s.check() != z3.sat:
                return False
            continue
        if any(n in intnames for co, _, _ in g for n in co):
            raise EngineError("integer variable with symbolic data")
        conj.extend(_fm(g))
    return And(*conj)


def _norm(co, const):
    k = next(iter(sorted(co)))
    d = abs(co[k])
    if d != 1:
        co = {n: Fraction(x) / d for n, x in co.items()}
        const = const * (Fraction(1) / Fraction(d)) if not is_sym(const) else const / d
    return co, const


def _sum(a, b):
    return b + a if is_sym(b) else a + b


def _collapse(rows):
    """one row per linear part: the largest constant"""
    if len(rows) < 40:
        return rows
    by = {}
    for (lin, _, strict), const in rows.items():
        by.setdefault((lin, strict), []).append(const)
    out = {}
    for (lin, strict), cs in by.items():
        c = cs[0] if len(cs) == 1 else smax(cs)
        out[lin, c.e.get_id() if is_sym(c) else None, strict] = c
    return out


def _fm(g):
    cur = {}

    def put(co, const, strict, store, conj):
        co = {n: x for n, x in co.items() if x != 0}
        if not co:
            conj.append(_neg(const, strict))
            return
        co, const = _norm(co, const)
        lin = tuple(sorted(co.items()))
        if is_sym(const):
            store[lin, const.e.get_id(), strict] = const
        else:
            key = (lin, None, strict)
            store[key] = max(store[key], const) if key in store else const

    conj = []
    for co, const, strict in g:
        put(co, const, strict, cur, conj)
    names = sorted({n for k in cur for n, _ in k[0]})
    while names:
        # cheapest variable first
        def cost(n):
            p = sum(1 for k in cur if dict(k[0]).get(n, 0) > 0)
            m = sum(1 for k in cur if dict(k[0]).get(n, 0) < 0)
            return p * m - p - m

        cur = _collapse(cur)
        n = min(names, key=cost)
        names.remove(n)
        pos, neg, rest = [], [], {}
        for k, const in cur.items():
            d = dict(k[0])
            x = d.get(n, 0)
            if x > 0:
                pos.append((d, const, k[2]))
            elif x < 0:
                neg.append((d, const, k[2]))
            else:
                rest[k] = const
        for dp, cp, sp in pos:
            for dn, cn, sn in neg:
                a, b = -dn[n], dp[n]
                co = {}
                for m, x in dp.items():
                    co[m] = co.get(m, 0) + a * x
                for m, x in dn.items():
                    co[m] = co.get(m, 0) + b * x
                co.pop(n, None)
                put(co, _sum(cp * a, cn * b), sp or sn, rest, conj)
        cur = _collapse(rest)
        if len(cur) > 400:
            raise EngineError("Fourier-Motzkin blow-up")
    for k, const in cur.items():
        conj.append(_neg(const, k[2]))
    return conj


def objective_at(prob, sol, vec):
    fix = _fixed(sol, vec)
    s = prob.objective.constant
    for v, x in prob.objective.items():
        if v.name in fix:
            if fix[v.name]:
                s = s + x * fix[v.name]
        else:
            s = s + sol.values[v.name] * x
    return s


def _assert_optimal(ex, prob, sol, val, vs):
    sign = 1 if prob.sense == 1 else -1
    obj = row_expr(prob.objective, lambda v: val[v.name]) * sign
    bool_names = {v.name for v, _ in sol.bools}
    free = [v for v in prob.objective.keys() if v.name not in bool_names and is_sym(sol.values[v.name])]
    vecs = _candidate_vectors(ex, prob, sol)
    sol.optimal = True
    for vec in vecs:
        if free:
            # no completion of this vector has a smaller objective
            fix = _fixed(sol, vec)
            const, co = prob.objective.constant * sign - obj, {}
            for v, x in prob.objective.items():
                if v.name in fix:
                    const = const + x * fix[v.name] * sign
                elif is_sym(sol.values[v.name]):
                    co[v.name] = co.get(v.name, 0) + x * sign
                else:
                    const = const + sol.values[v.name] * x * sign
            ex.add(Not(exists_aux(ex, prob, sol, vec, [(co, const)])))
        else:
            phi = exists_aux(ex, prob, sol, vec)
            if phi is False:
                continue
            ex.add(Implies(phi, obj <= objective_at(prob, sol, vec) * sign))


def _candidate_vectors(ex, prob, sol):
    """0/1 vectors that satisfy the rows free of symbolic data (superset of the
    feasible ones)."""
    s = z3.Solver()
    bmap = _bmap(sol)
    for bs in bmap.values():
        for b1, b2 in zip(bs[:-1], bs[1:]):
            s.add(z3.Implies(b2, b1))
    for n, c in prob.constraints.items():
        if is_sym(c.constant) or any(is_sym(x) for x in c.values()):
            continue
        if not all(v.name in bmap for v in c.keys()):
            # rows with continuous/integer parts: keep, existentially
            e = num_term(c.constant)
            for v, x in c.items():
                e = e + _pterm(v, x, bmap)
        else:
            e = num_term(c.constant)
            for v, x in c.items():
                e = e + _pterm(v, x, bmap)
        s.add(e == 0 if c.sense == 0 else e >= 0 if c.sense > 0 else e <= 0)
    for v, t in sol.ints + sol.reals:
        p = z3.Int("p_" + v.name) if v.cat == "Integer" else z3.Real("p_" + v.name)
        if v.lowBound is not None and not is_sym(v.lowBound):
            s.add(p >= num_term(v.lowBound))
        if v.upBound is not None and not is_sym(v.upBound):
            s.add(p <= num_term(v.upBound))
    for b1, b2 in _interchangeable(prob, sol):
        s.add(z3.Implies(b2, b1))
    vecs = []
    bs = [b for _, b in sol.bools]
    while s.check() == z3.sat:
        m = s.model()
        vec = tuple(z3.is_true(m.eval(b, model_completion=True)) for b in bs)
        vecs.append(vec)
        s.add(z3.Or([z3.Not(b) if x else b for b, x in zip(bs, vec)]))
        if len(vecs) > 400:
            raise EngineError("too many candidate vectors")
    vecs.sort()
    return vecs


def _pterm(v, x, bmap):
    if v.name in bmap:
        return z3.Sum([z3.If(b, num_term(x), z3.IntVal(0)) for b in bmap[v.name]])
    p = z3.Int("p_" + v.name) if v.cat == "Integer" else z3.Real("p_" + v.name)
    return num_term(x) * p


def _infeasible_formula(ex, prob, sol, cons):
    out = []
    for vec in _candidate_vectors(ex, prob, sol):
        out.append(Not(exists_aux(ex, prob, sol, vec)))
    return bterm(And(*out))


# ---------------------------------------------------------------- cspy stub
class StubBiDirectional:
    def __init__(self, G, max_res, min_res, preprocess=False, direction="both",
                 method="unprocessed", time_limit=None, threshold=None,
                 elementary=False, bounds_pruning=False, find_critical_res=False,
                 critical_res=None, REF_callback=None, two_cycle_elimination=False):
        import networkx as nx

        self.original = G
        self.max_res = list(max_res)
        self.min_res = list(min_res)
        self.direction = direction
        self.time_limit = time_limit
        self.threshold = threshold
        self.elementary = elementary
        self.REF = REF_callback
        if not nx.has_path(G, "Source", "Sink"):
            raise nx.NetworkXException("Disconnected Graph")
        self.G = nx.convert_node_labels_to_integers(G.copy(), label_attribute="original_label")
        self._label = {n: d["original_label"] for n, d in self.G.nodes(data=True)}
        self._id = {l: n for n, l in self._label.items()}
        self._source_id = self._id["Source"]
        self._sink_id = self._id["Sink"]
        self._path = None

    # -- results
    @property
    def path(self):
        return list(self._path) if self._path else None

    @property
    def total_cost(self):
        if not self._path:
            return None
        return self.cost_of(self._path)

    @property
    def consumed_resources(self):
        return None

    # -- semantics
    def cost_of(self, path):
        s = 0
        for a, b in zip(path[:-1], path[1:]):
            s = s + self.G.edges[self._id[a], self._id[b]]["weight"]
        return s

    def within(self, path):
        """Resource feasibility of `path` (condition; may branch in the REF)."""
        ids = [self._id[v] for v in path]
        fwd = self._forward(ids)
        if self.REF is None or self.direction == "forward":
            return fwd[-1][1]
        # the callback is used from both ends: a path is also accepted if its
        # backward label, or a forward and a backward label joined, is within bounds
        bwd = self._backward(ids)
        alts = [fwd[-1][1], bwd[0][1]] if self.direction == "both" else [bwd[0][1]]
        if self.direction == "both":
            for t in range(1, len(ids) - 2):
                d = self.G.edges[ids[t], ids[t + 1]]
                res = self.REF.REF_join(list(fwd[t][0]), list(bwd[t + 1][0]), ids[t], ids[t + 1], list(d["res_cost"]))
                alts.append(And(fwd[t][1], bwd[t + 1][1], *[r <= m for r, m in zip(res, self.max_res)]))
        return Or(*alts)

    def _forward(self, ids):
        """[(resources, within bounds so far)] at every node"""
        res = list(self.min_res)
        ok = []
        cost = 0
        out = [(res, True)]
        last = len(ids) - 2
        for t, (a, b) in enumerate(zip(ids[:-1], ids[1:])):
            d = self.G.edges[a, b]
            cost = cost + d["weight"]
            if self.REF is not None:
                res = list(self.REF.REF_fwd(list(res), a, b, list(d["res_cost"]), ids[: t + 1], cost))
            else:
                res = [r + c for r, c in zip(res, d["res_cost"])]
            for r, m in zip(res, self.max_res):
                ok.append(r <= m)
            if t == last:
                for r, m in zip(res, self.min_res):
                    ok.append(r >= m)
            out.append((res, And(*ok)))
        return out

    def _backward(self, ids):
        res = [self.max_res[0]] + list(self.min_res[1:])
        ok = []
        cost = 0
        out = [(res, True)]
        for t in range(len(ids) - 2, -1, -1):
            a, b = ids[t], ids[t + 1]
            d = self.G.edges[a, b]
            cost = cost + d["weight"]
            res = list(self.REF.REF_bwd(list(res), a, b, list(d["res_cost"]), ids[t + 1:][::-1], cost))
            ok.append(res[0] >= self.min_res[0])
            for r, m in zip(res[1:], self.max_res[1:]):
                ok.append(r <= m)
            out.insert(0, (res, And(*ok)))
        return out

    def walks(self):
        out = []
        n = self.G.number_of_nodes()
        limit = n - 2 + 1 + (0 if self.elementary else POLICY.cspy_any_walk_extra)
        m0 = self.max_res[0]
        if not is_sym(m0):
            limit = min(limit, int(m0)) if self.REF is None or True else limit
        sink = self._sink_id

        def rec(p):
            if p[-1] == sink:
                out.append([self._label[v] for v in p])
                return
            if len(p) - 1 >= limit:
                return
            for w in self.G.successors(p[-1]):
                if self.elementary and w in p:
                    continue
                rec(p + [w])

        rec([self._source_id])
        return out

    def simple_paths(self):
        out = []
        sink = self._sink_id

        def rec(p):
            if p[-1] == sink:
                out.append([self._label[v] for v in p])
                return
            for w in self.G.successors(p[-1]):
                if w not in p:
                    rec(p + [w])

        rec([self._source_id])
        return out

    def run(self):
        ex = CURRENT.ex
        STATE.cspy_calls.append(self)
        STATE.events.append(("cspy", self, self.time_limit))
        old = self._again(ex) if POLICY.deterministic else None
        if old is not None:
            self._path = old[0]
        elif not ex.symbolic:
            self._path = ex.scripted_cspy(self)
        else:
            self._path = self._run_symbolic(ex)
            ex.env_log.append(("cspy", self._path))
        if POLICY.deterministic:
            STATE.memo_cspy.append((self._numbers(), (self._path,)))
        for f in POLICY.on_cspy:
            f(self)

    def _numbers(self):
        shape, nums = [self.direction, bool(self.elementary), self.REF is None, self.threshold is None], []

        def num(x):
            shape.append("#")
            nums.append(x)

        for x in self.max_res + self.min_res:
            num(x)
        for v, d in self.original.nodes(data=True):
            shape.append(v)
            for k in sorted(d):
                shape.append(k)
                if isinstance(d[k], (int, float)) or is_sym(d[k]):
                    num(d[k])
                else:
                    shape.append(str(d[k]))
        for a, b, d in self.original.edges(data=True):
            shape.append((a, b))
            num(d["weight"])
            for x in d["res_cost"]:
                num(x)
        return tuple(shape), nums

    def _again(self, ex):
        shape, nums = self._numbers()
        for (s0, n0), path in STATE.memo_cspy:
            if s0 == shape and _same(ex, nums, n0):
                return path
        return None

    def _run_symbolic(self, ex):
        opts = []
        if POLICY.cspy_none or POLICY.cspy_optimal:
            opts.append((None, True))
        for p in self.walks():
            if POLICY.cspy_filter is None or POLICY.cspy_filter(p):
                opts.append((tuple(p), True))
        p = ex.choose(opts, "p")
        feas = {}
        if POLICY.cspy_optimal:
            for q in self.simple_paths():
                feas[tuple(q)] = self.merged_within(ex, q)
        if p is not None:
            ex.assume(self.within(list(p)))
        if POLICY.cspy_optimal:
            c = self.cost_of(p) if p is not None else None
            # the search may end early with a path below the threshold
            early = False if p is None or self.threshold is None else c <= self.threshold
            for q, f in feas.items():
                if p is None:
                    ex.add(Not(f))
                else:
                    ex.add(Or(early, Implies(f, c <= self.cost_of(q))))
            ex.assume(z3.BoolVal(True))
        return list(p) if p is not None else None

    def merged_within(self, ex, path):
        res = ex.merged(lambda: self.within(path))
        return Or(*[And(SymBool(g), v) for g, v in res])


# ---------------------------------------------------------------- networkx
def _sym_weights(G, weight):
    return any(is_sym(d.get(weight)) for _, _, d in G.edges(data=True))


def make_nx_wrappers(nx):
    real_spl = nx.shortest_path_length
    real_neg = nx.negative_edge_cycle

    def shortest_path_length(G, source=None, target=None, weight=None, method="dijkstra"):
        if weight is None or not isinstance(weight, str) or source is None or target is None or not _sym_weights(G, weight):
            return real_spl(G, source=source, target=target, weight=weight, method=method)
        vals = []
        for p in nx.all_simple_paths(G, source, target):
            vals.append(sum(G.edges[a, b].get(weight, 1) for a, b in zip(p[:-1], p[1:])))
        if source == target:
            return 0
        if not vals:
            raise nx.NetworkXNoPath("no path")
        return smin(vals)

    def negative_edge_cycle(G, weight="weight", heuristic=True):
        if not _sym_weights(G, weight):
            return real_neg(G, weight=weight, heuristic=heuristic)
        conds = []
        for cyc in nx.simple_cycles(G):
            s = 0
            for a, b in zip(cyc, cyc[1:] + cyc[:1]):
                s = s + G.edges[a, b].get(weight, 1)
            conds.append(s < 0)
        return Or(*conds)

    return shortest_path_length, negative_edge_cycle


# ---------------------------------------------------------------- install
_det_hash_counter = [0]
_installed = False


def install(symbolic=True):
    """Replace the environment, then import the real vrpy from /repo."""
    global _installed
    if _installed:
        return
    _installed = True
    logging.disable(logging.CRITICAL)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import random
    import time

    import cspy
    import networkx as nx
    import numpy
    import pulp
    import pulp.pulp as pp

    # deterministic hashing of graphs (the code builds sets of graphs)
    def ghash(self):
        h = self.__dict__.get("_vp_h")
        if h is None:
            _det_hash_counter[0] += 1
            h = self.__dict__["_vp_h"] = _det_hash_counter[0]
        return h

    nx.Graph.__hash__ = ghash

    # --- pulp: fork-free arithmetic on symbolic coefficients, solver contract
    class _Math:
        def __getattr__(self, k):
            return getattr(math, k)

        @staticmethod
        def isfinite(x):
            return True if is_sym(x) else math.isfinite(x)

    pp.math = _Math()

    def addterm(self, key, value):
        y = self.get(key, 0)
        if is_sym(y) or y:
            self[key] = y + value
        else:
            self[key] = value

    pp.LpAffineExpression.addterm = addterm
    real_mul = pp.LpAffineExpression.__mul__

    def mul(self, other):
        if type(other) is SymNum:
            e = self.emptyCopy()
            e.constant = self.constant * other
            for v, x in self.items():
                e[v] = other * x
            return e
        if isinstance(other, pp.LpAffineExpression) and (
            is_sym(other.constant) or is_sym(self.constant)
        ):
            if len(other) and len(self):
                raise TypeError("Non-constant expressions cannot be multiplied")
            a, b = (self, other) if len(self) else (other, self)
            return mul(a, b.constant) if is_sym(b.constant) else real_mul(a, b.constant)
        return real_mul(self, other)

    pp.LpAffineExpression.__mul__ = mul
    pp.LpAffineExpression.__rmul__ = lambda self, other: self * other
    real_add = pp.LpAffineExpression.addInPlace

    def addInPlace(self, other, sign=1):
        if type(other) is SymNum:
            self.constant = self.constant + other * sign
            return self
        return real_add(self, other, sign)

    pp.LpAffineExpression.addInPlace = addInPlace
    real_bool = pp.LpAffineExpression.__bool__

    def ebool(self):
        return True if is_sym(self.constant) else real_bool(self)

    pp.LpAffineExpression.__bool__ = ebool

    pp.LpProblem.solve = stub_solve
    pp.LpProblem.resolve = stub_resolve

    # --- cspy
    cspy.BiDirectional = StubBiDirectional
    try:
        import cspy.algorithms.bidirectional as cb

        cb.BiDirectional = StubBiDirectional
    except Exception:
        pass

    # --- networkx algorithms with symbolic weights
    spl, neg = make_nx_wrappers(nx)
    nx.shortest_path_length = spl
    nx.negative_edge_cycle = neg

    # --- numpy.zeros as used by vrpy holds symbolic values
    real_zeros = numpy.zeros

    def zeros(shape, *a, **k):
        if caller_is_vrpy(2) and not a and not k:
            z = real_zeros(shape, dtype=object)
            z[...] = 0
            return z
        return real_zeros(shape, *a, **k)

    numpy.zeros = zeros

    # --- clock and randomness, for vrpy only
    real_time = time.time

    def stub_time():
        if not caller_is_vrpy(2):
            return real_time()
        STATE.time_calls += 1
        ex = CURRENT.ex
        if POLICY.clock is None:
            return 1000.0
        if not ex.symbolic:
            v = ex.scripted_time()
        else:
            v = POLICY.clock(STATE.time_calls)
            ex.env_log.append(("time", v))
        STATE.events.append(("time", v))
        return v

    time.time = stub_time
    real_choice = random.choice

    def stub_choice(seq):
        if not caller_is_vrpy(2):
            return real_choice(seq)
        return env_choice(list(seq))

    random.choice = stub_choice

    import numpy.random as nr

    RealRS = nr.RandomState

    class StubRandomState(RealRS):
        def choice(self, a, *args, **kw):
            return env_choice(list(a))

        def uniform(self, *a, **k):
            return env_choice([0.0, 0.5, 1.0])

    nr.RandomState = StubRandomState
    numpy.random.RandomState = StubRandomState

    import vrpy  # noqa
    import vrpy.vrp as vv

    path = vrpy.__file__
    if not path.startswith(REPO + "/"):
        raise EngineError("vrpy imported from %s" % path)
    # fork-free min / max inside vrpy
    for name, mod in list(sys.modules.items()):
        if name == "vrpy" or name.startswith("vrpy."):
            for f, g in (("min", smin), ("max", smax), ("int", IntShim), ("float", FloatShim)):
                if f not in mod.__dict__:
                    mod.__dict__[f] = g
    _install_knapsack_stub()
    _install_greedy_bound()


def limit_of(solver):
    """the time limit a solver object was given, as an argument or as an option"""
    t = getattr(solver, "timeLimit", None)
    if t is None:
        for o in getattr(solver, "options", None) or []:
            if isinstance(o, tuple) and len(o) == 2 and o[0] == "TimeLimit":
                t = o[1]
    return t


class _ShimMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)


class IntShim(int, metaclass=_ShimMeta):
    """`int` as seen by vrpy: int(symbolic) stays symbolic."""

    _base = int

    def __new__(cls, *a, **k):
        if len(a) == 1 and type(a[0]) is SymNum:
            return a[0].__trunc__()
        if len(a) == 1 and type(a[0]) is SymBool:
            return a[0]._n()
        return int(*a, **k)


class FloatShim(float, metaclass=_ShimMeta):
    _base = float

    def __new__(cls, *a, **k):
        if len(a) == 1 and type(a[0]) is SymNum:
            return SymNum(a[0].e, "float", bin=a[0].bin, origin=a[0].origin)
        if len(a) == 1 and type(a[0]) is SymBool:
            return a[0]._n()
        return float(*a, **k)


def _install_greedy_bound():
    """The randomised greedy pricing repeats the same search n_runs times."""
    try:
        from vrpy.subproblem_greedy import _SubProblemGreedy as cls

        real = cls.solve
    except Exception:
        return

    def solve(self, *a, **k):
        if POLICY.greedy_runs is not None:
            if "n_runs" in k:
                k["n_runs"] = POLICY.greedy_runs
            elif a and isinstance(a[0], int):
                a = (POLICY.greedy_runs,) + a[1:]
        return real(self, *a, **k)

    cls.solve = solve


def env_choice(seq):
    ex = CURRENT.ex
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    if len(seq) == 1:
        return seq[0]
    STATE.n_choice += 1
    if STATE.n_choice > POLICY.choice_budget:
        return seq[0]
    if not ex.symbolic:
        i = ex.scripted_choice(len(seq))
        return seq[i]
    i = ex.choose([(i, True) for i in range(len(seq))], "r")
    ex.env_log.append(("choice", i))
    return seq[i]


def _install_knapsack_stub():
    """Contract of the stop bound (checked on its own by C15): an integer that
    is at least the largest number of customers fitting in the vehicle, or the
    user's bound when that is smaller."""
    import vrpy.preprocessing as pre
    import vrpy.vrp as vv

    real = getattr(pre, "get_num_stops_upper_bound", None)
    if real is None:
        return

    def stub(G, max_capacity, num_stops=None, distribution_collection=False, *a, **k):
        if not POLICY.knapsack_stub:
            return real(G, max_capacity, num_stops, distribution_collection, *a, **k)
        n = len([v for v in G.nodes() if v not in ("Source", "Sink")])
        bound = n + 2
        if num_stops:
            return smin(num_stops, bound)
        return bound

    pre.get_num_stops_upper_bound = stub
    if getattr(vv, "get_num_stops_upper_bound", None) is real:
        vv.get_num_stops_upper_bound = stub
