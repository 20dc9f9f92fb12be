"""The properties: which runs of the solver each one looks at, and its oracle."""
import itertools

from .. import env
from ..driver import Scenario
from ..sym import And, Implies, Ite, Not, Or, is_sym, smax, z3
from .common import *  # noqa
from . import combos, large  # noqa
from .common import FAMS, S, T, Run, build, family, go, lab, no_columns, one_dual, price, roundtrips

PROPS = {}


class Prop:
    def __init__(self, pid, families, oracle, skip="", errors=False):
        self.pid, self.oracle, self.errors = pid, oracle, errors
        self.fams = families
        self.extra = []


def prop(pid, want, avoid="", errors=False, extra_fams=""):
    """`want`: families with one of these tags, and none of `avoid`"""

    def deco(fn):
        want_, avoid_ = set(want.split()), set(avoid.split())
        names = [
            f.name for f in FAMS.values()
            if (f.name in want_ or f.tags & want_) and not f.tags & avoid_ and f.name not in avoid_
        ]
        PROPS[pid] = Prop(pid, names, fn, errors=errors)
        return fn

    return deco


def special(pid, name, tier="quick"):
    def deco(fn):
        PROPS[pid].extra.append(Scenario(name, fn, tier=tier))
        return fn

    return deco


def scenarios(pid):
    p = PROPS[pid]
    out = []
    for n in p.fams:
        f = FAMS[n]

        def body(ctx, f=f):
            r = f.fn(ctx)
            if not r.ok and not p.errors:
                ctx.skip("solve raised %s" % type(r.out.exc).__name__)
            return p.oracle(r)

        out.append(Scenario(f.name, body, tier=f.tier))
    return out + p.extra


# ------------------------------------------------------------------ C01 coverage
@prop("C01", "cw_cap cw_costs cw_depot ini_cap ini_drop ini_tw ini_sdc ini_pd ini_all lp_cap lp_stops "
      "lp_drop lp_pd lp_two cs_cap cs_drop cs_two cs_mixed cs_user gr_dur dive lock_price again_cap "
      "lp_span cs_big3 lp_big3 mx_any large_ini large_cw large_cs large_lp large_span large_period large_drop large_lock large_dive "
      "large_types")
def c01(r):
    inst, prob = r.inst, r.prob
    obs = []
    if inst.args.get("periodic"):
        return o_schedule(inst, prob)
    if inst.args.get("drop_penalty") is None:
        return o_cover(inst, prob)
    rs = routes_of(prob)
    left = 0
    for v in inst.customers:
        cnt = sum(x.count(v) for x in rs.values())
        obs.append(("customer %s served %d times" % (v, cnt), cnt <= 1))
        left += cnt == 0
    costs = list(prob.best_routes_cost.values())
    if inst.args.get("minimize_global_span"):
        paid = prob.best_value - (smax(costs) if costs else 0)
    else:
        paid = prob.best_value - sum(costs)
    obs.append(("%d customers unserved, penalty paid differs" % left, paid == inst.args["drop_penalty"] * left))
    return obs


# ------------------------------------------------------------------ C02 .. C08
@prop("C02", "cap mx_cap large_ini large_cw large_cs large_lp large_types large_lock", avoid="sdc pd strategy")
def c02(r):
    return o_types(r.inst, r.prob) + o_capacity(r.inst, r.prob)


@prop("C03", "sdc mx_sdc large_sdc")
def c03(r):
    return o_types(r.inst, r.prob) + o_sdc(r.inst, r.prob)


@prop("C04", "pd mx_pd")
def c04(r):
    return o_types(r.inst, r.prob) + o_pd(r.inst, r.prob)


@prop("C05", "stops mx_stops large_cs large_dive", avoid="strategy")
def c05(r):
    return o_stops(r.inst, r.prob)


@prop("C06", "dur mx_dur large_dur")
def c06(r):
    return o_duration(r.inst, r.prob)


@prop("C07", "tw mx_tw large_ini large_tw")
def c07(r):
    return o_windows(r.inst, r.prob)


@prop("C08", "cw_costs cw_depot ini_cap ini_tw ini_pd lp_cap lp_costs lp_stops lp_pd lp_period lp_two "
      "cs_cap cs_dur cs_sdc cs_two cs_drop gr_dur dive lock_cw strategy mx_any large_cw large_cs large_lp large_tw large_dive")
def c08(r):
    return o_shape(r.inst, r.prob)


# ------------------------------------------------------------------ C09 value
@prop("C09", "costs fix drop span cw_depot lp_two dive lock_one again_dur lp_period mx_cost large_ini large_span large_drop large_types large_lock")
def c09(r):
    return o_types(r.inst, r.prob) + o_value(r.inst, r.prob)


# ------------------------------------------------------------------ C10 fleet
@prop("C10", "nv all mixed mx_nv large_types large_drop large_lock", avoid="period greedy")
def c10(r):
    return o_types(r.inst, r.prob) + o_fleet(r.inst, r.prob)


# ------------------------------------------------------------------ C11 periodic
@prop("C11", "period mx_period large_period")
def c11(r):
    return o_schedule(r.inst, r.prob)


# ------------------------------------------------------------------ C12 preassigned
@prop("C12", "lock mx_lock large_lock")
def c12(r):
    obs = []
    rs = routes_of(r.prob)
    for l in r.locks:
        obs.append(("preassigned route %s is not in the solution once" % (l,),
                    len([x for x in rs.values() if x == l]) == 1))
        for v in l[1:-1]:
            obs.append(("customer %s of a preassigned route served elsewhere" % v,
                        sum(x.count(v) for x in rs.values()) == 1))
    rest = [v for v in r.inst.customers if not any(v in l for l in r.locks)]
    if r.inst.args.get("drop_penalty") is None:
        for v in rest:
            obs.append(("customer %s not served as often as asked" % v,
                        sum(x.count(v) for x in rs.values()) == r.inst.frequency.get(v, 1)))
    costs = r.prob.best_routes_cost
    for k, x in rs.items():
        if x in r.locks:
            obs.append(("cost of preassigned route", costs[k] == r.inst.route_cost(x, r.prob.best_routes_type[k])))
    if r.inst.args.get("periodic"):
        return obs
    return obs + o_fleet(r.inst, r.prob)


# ------------------------------------------------------------------ C13 reports
@prop("C13", "cw_all cw_dur cw_cap ini_cap ini_dur ini_tw ini_sdc ini_pd ini_period ini_drop lp_twcap lp_pd lp_sdc "
      "cs_twcap cs_sdc cs_sdcmix cs_tw lp_twfrac cs_twfrac lock_all lock_cw mx_dload mx_tload large_ini large_cw large_dur large_tw large_sdc large_lock")
def c13(r):
    return o_loads(r.inst, r.prob) + o_ids(r.inst, r.prob)


# ------------------------------------------------------------------ C17 no crash
def may_be_infeasible(inst):
    a = inst.args
    return a.get("num_vehicles") is not None and (a.get("drop_penalty") is None or bool(a.get("use_all_vehicles")))


@prop("C17", "cw_all cw_depot ini_cap ini_all ini_drop ini_tw ini_pd ini_sdc ini_mixed ini_fixed ini_span ini_period "
      "lp_cap lp_stops lp_twcap lp_pdtw lp_sdc lp_mixed lp_drop lp_period lp_span cs_dur cs_twcap cs_sdc cs_mixed "
      "cs_drop cs_period cs_span gr_dur strategy dive lock again mx_any mx_pd mx_period large_ini large_cw large_dur large_cs large_lp large_sdc "
      "large_types large_span large_period large_drop large_dive", errors=True)
def c17(r):
    if r.ok:
        return [("solve", True)]
    e = r.out.exc
    if may_be_infeasible(r.inst) and "problem Infeasible" in str(e):
        return [("infeasible", True)]
    return [("solve raised %s" % type(e).__name__, False)]


# ------------------------------------------------------------------ C14 cheapest selection
def selections(inst, pool, min_=None):
    """all sets of routes (route, type) of `pool` that serve nobody twice"""
    out = []
    for m in range(0, len(pool) + 1):
        for sel in itertools.combinations(pool, m):
            seen = [v for r, _ in sel for v in r[1:-1]]
            if len(seen) == len(set(seen)):
                out.append((sel, [v for v in inst.customers if v not in seen]))
    return out


def cheapest(inst, prob, pool, given=None):
    """no selection of the pool is better than the reported solution"""
    a = inst.args
    nv = a.get("num_vehicles")
    nv = nv if isinstance(nv, list) or nv is None else [nv]
    obs = []
    for sel, left in selections(inst, pool):
        if left and a.get("drop_penalty") is None or not sel:
            continue
        cs = [given] if given is not None else []
        costs = [inst.route_cost(r, k) for r, k in sel]
        if nv is not None:
            for t in range(len(nv)):
                n = len([1 for _, k in sel if k == t])
                cs.append(n == nv[t] if a.get("use_all_vehicles") else n <= nv[t])
        tot = smax(costs) if a.get("minimize_global_span") else sum(costs)
        if left:
            tot = tot + a["drop_penalty"] * len(left)
        obs.append(("the selection %s is cheaper" % ([r[1:-1] for r, _ in sel],),
                    Implies(And(*cs), prob.best_value <= tot)))
    return obs


PROPS["C14"] = Prop("C14", [], None)


def select(feats, n=2, more=((1, 2), (2, 1)), **kw):
    def f(ctx):
        symc = kw.get("symc", True)
        inst = build(ctx, n, feats, symc=symc)
        pool = [list(r) for r in roundtrips(inst)] + [[S] + list(m) + [T] for m in more]
        no_columns(ctx)
        best_selection(ctx)
        r = go(ctx, inst, pricing_strategy="Exact", initial_routes=pool)
        if not r.ok:
            if "nv" in feats and "problem Infeasible" in str(r.out.exc):
                # then no selection exists either
                nv = inst.args["num_vehicles"]
                return [("a selection exists: %s" % ([x[0][1:-1] for x in sel],),
                         Not(len(sel) == nv if inst.args.get("use_all_vehicles") else len(sel) <= nv))
                        for sel, left in selections(inst, [(x, 0) for x in pool]) if not left]
            return [("solve raised %s" % type(r.out.exc).__name__, False)]
        return cheapest(inst, r.prob, [(x, 0) for x in pool])

    return f


for _n, _f, _k in [
    ("sel_costs", "fix", {}), ("sel_nv", "nv fix", {}), ("sel_drop", "drop nv", {}), ("sel_span", "span fix", {}),
    ("sel_all", "nv all", {}),
    ("sel_three", "", dict(n=3, more=((1, 2), (3, 2), (1, 3, 2)), symc="outer")),
    ("sel_dropspan", "drop span", {}),
]:
    special("C14", _n)(select(_f, **_k))


def priced(feats, types=1, n=2, symc=True, **kw):
    """user routes and what cspy returned"""
    def f(ctx):
        inst = build(ctx, n, feats, symc=symc, types=types)
        best_selection(ctx)
        one_dual(ctx)
        found = []
        ctx.policy.on_cspy.append(lambda alg: found.append((alg, alg.path, alg.total_cost)))
        ctx.policy.cspy_filter = lambda p: len(p) > 3
        ini = [list(r) for r in roundtrips(inst)]
        r = price(ctx, inst, True, elementary=True, initial_routes=ini, **kw)
        if not r.ok:
            ctx.skip("solve raised %s" % type(r.out.exc).__name__)
        pool = [(x, 0) for x in ini] if types == 1 else []
        # one pricing call per vehicle type and round
        given = True
        for i, (alg, path, cost) in enumerate(found):
            if path is not None:
                pool.append((path, i % types))
                given = And(given, cost < -0.001)
        if types > 1:
            # the type of an initial route is the code's choice among those that can carry it
            obs = []
            worst = 0
            for x in ini:
                ks = [k for k in range(types)]
                worst = worst + smax([Ite(inst.route_feasible(x, k), inst.route_cost(x, k), 0) for k in ks])
            obs.append(("worse than the initial routes", r.prob.best_value <= worst))
            for path, k in pool:
                if len(set(path[1:-1])) == n:
                    obs.append(("the route %s is cheaper" % (path,), Implies(given, r.prob.best_value <= inst.route_cost(path, k))))
            return obs
        return cheapest(inst, r.prob, pool, given)

    return f


special("C14", "pool_cap")(priced("cap"))
special("C14", "pool_drop")(priced("stops drop"))
special("C14", "pool_mixed")(priced("cap fix", types=2, symc="inner"))
special("C14", "pool_two")(priced("stops", iters=2, symc="inner"))
special("C14", "pool_three", "thorough")(priced("cap stops", n=3, symc="inner"))


def builtin(feats, n=3, symc="inner", **kw):
    """not worse than the round trips, nor than the heuristic solution"""
    def f(ctx):
        inst = build(ctx, n, feats, symc=symc)
        no_columns(ctx)
        best_selection(ctx)
        r = go(ctx, inst, pricing_strategy="Exact", **kw)
        if not r.ok:
            return [("solve raised %s" % type(r.out.exc).__name__, False)]
        obs = []
        other = inst.problem()
        out = ctx.call(other.solve, heuristic_only=True)
        if out.ok:
            obs.append(("worse than the heuristic solution", r.prob.best_value <= other.best_value))
        return obs

    return f


special("C14", "ini_cap")(builtin("cap", symc=False))
special("C14", "ini_dur")(builtin("dur fix", symc=False))
special("C14", "ini_stops")(builtin("stops drop", symc=False))
special("C14", "ini_costs", "thorough")(builtin("stops", symc="inner", n=2))


# ------------------------------------------------------------------ reading the selection problem
class Master:
    """What the selection problem contains, read from the problem object the
    code handed to the solver: the covering row of each customer is the row its
    round trip (an initial route, recognised by its cost) is in."""

    def __init__(self, ctx, inst):
        self.ctx, self.inst = ctx, inst
        self.rounds = []
        self.prob = None
        ctx.policy.on_lp.append(self.see)
        self.after = []

    def see(self, prob, sol):
        if self.prob is None:
            self.prob = prob
            self.on_first = True
        if prob is not self.prob:
            return
        cols = {}
        for v, x in (prob.objective or {}).items():
            cols[v.name] = [x, {}, v]
        for n, c in prob.constraints.items():
            for v, x in c.items():
                cols.setdefault(v.name, [0, {}, v])[1][n] = x
        self.rounds.append({
            "cols": cols, "duals": dict(sol.duals), "status": sol.status,
            "sense": {n: c.sense for n, c in prob.constraints.items()},
            "values": sol.values,
            "relaxed": not all(v.cat == "Integer" for v in prob.variables() if v.upBound is not None and v.lowBound != v.upBound),
        })
        if len(self.rounds) == 1:
            self._identify()
        for f in self.after:
            f(self, self.rounds[-1])

    @staticmethod
    def _equal(a, b):
        if is_sym(a) or is_sym(b):
            d = z3.simplify(num_term_(a) - num_term_(b))
            return z3.is_rational_value(d) and d.numerator_as_long() == 0 or z3.is_int_value(d) and d.as_long() == 0
        return abs(a - b) < 1e-9

    def _identify(self):
        r = self.rounds[0]
        self.row, self.col0 = {}, {}
        self.base = set(r["cols"])
        for trip in roundtrips(self.inst):
            found = []
            for n, (obj, rows, v) in r["cols"].items():
                ge = [m for m in rows if r["sense"][m] > 0]
                if len(ge) == len(trip) - 2 and any(
                    self._equal(obj, self.inst.route_cost(trip, k)) for k in range(self.inst.types)
                ):
                    found.append((n, ge))
            if len(found) > 1:
                found = [f for f in found if any(m.endswith("_%s" % trip[1]) for m in f[1])]
            if len(found) != 1:
                self.ctx.skip("the selection problem cannot be read")
            for v, m in zip(trip[1:-1], found[0][1]):
                self.row[v] = m
                self.col0[v] = found[0][0]
        if len(set(self.row.values())) != len(self.inst.customers):
            self.ctx.skip("the selection problem cannot be read")
        ini = set(self.col0.values())
        self.fleet = [m for m, s in r["sense"].items() if s <= 0]
        if len(self.fleet) != self.inst.types:
            self.fleet = [m for m in self.fleet if any(m in r["cols"][c][1] for c in ini)]

    def reduced(self, rnd, visits, cost, k):
        """reduced cost under the duals of a round"""
        d = self.rounds[rnd]["duals"]
        x = cost
        for v in visits:
            x = x - d[self.row[v]]
        if self.inst.args.get("num_vehicles") is not None:
            if len(self.fleet) != self.inst.types:
                self.ctx.skip("the selection problem cannot be read")
            x = x - d[self.fleet[k]]
        return x

    def new_columns(self, i):
        """columns of round i that round i-1 did not have"""
        a, b = self.rounds[i - 1]["cols"], self.rounds[i]["cols"]
        return [n for n in b if n not in a]


def num_term_(x):
    from ..sym import term

    return term(x) if is_sym(x) else term(x)


def exact_pricing(ctx):
    """the solver answers the pricing problems with an optimal solution"""
    ctx.policy.cspy_optimal = True

    def is_pricing(prob):
        master = next((p for p, _ in ctx.lp_calls() if len(p.constraints) > 1), prob)
        return prob is not master

    ctx.policy.lp_optimal = is_pricing


# ------------------------------------------------------------------ C15 pricing is complete
PROPS["C15"] = Prop("C15", [], None)


def complete(feats, cspy, n=2, types=1, strategy="Exact", symc=False, dual="free", knap=False, hi=1000, setup=None,
             requests=None, symt=False, label=None, wide=True, frac=False, junk=False, missing=(), **kw):
    def f(ctx):
        inst = build(ctx, n, feats, types=types, symc=symc, hi=hi, requests=requests, symt=symt, label=label, wide=wide, frac=frac, missing=missing)
        inst.junk = junk
        ctx.policy.knapsack_stub = not knap
        if setup:
            setup(ctx, inst)
        exact_pricing(ctx)
        if dual == "one":
            one_dual(ctx)
        m = Master(ctx, inst)

        def dual_feasible(m, rnd):
            # the routes the relaxed problem has already do not improve it
            if rnd["relaxed"]:
                for n_, (x, rows, var) in rnd["cols"].items():
                    if n_ in m.col0.values() or n_ not in m.base:
                        for row, co in rows.items():
                            x = x - co * rnd["duals"][row]
                        ctx.assume(x >= 0)

        m.after.append(dual_feasible)
        ini = [list(r) for r in roundtrips(inst)]
        opts = dict(pricing_strategy=strategy, initial_routes=ini, cspy=cspy, max_iter=1)
        opts.update(kw)
        r = go(ctx, inst, **opts)
        if not r.ok and not m.rounds:
            ctx.skip("solve raised %s" % type(r.out.exc).__name__)
        if len(m.rounds) < 2:
            ctx.skip("no final selection: %r" % (r.out.exc,))
        last = len(m.rounds) - 1
        if m.new_columns(last) or m.rounds[last]["relaxed"]:
            return [("a column was found", True)]
        obs = []
        for x in inst.simple_routes():
            for k in range(types):
                if x in ini and types == 1:
                    continue
                red = m.reduced(last - 1, x[1:-1], inst.route_cost(x, k), k)
                if inst.args.get("time_windows") and inst.args.get("duration") is not None:
                    # waiting may count as duration
                    red = Ite(inst.arrivals(x)[-1] <= inst.args["duration"], red, 0)
                obs.append(("pricing stops although route %s (type %d) has negative reduced cost" % (x[1:-1], k),
                            Implies(inst.route_feasible(x, k), red >= 0)))
        return obs

    return f


def two_types(ctx, inst):
    """vehicle types that differ by their fixed cost"""
    inst.args["num_stops"] = 2
    inst.args["fixed_cost"] = [6, ctx.half("F1", 0, 20)]


def one_cost(ctx, inst):
    """the second type is cheaper from the depot to customer 2"""
    inst.args["num_stops"] = 2
    inst.args["fixed_cost"] = [6, 2]
    inst.cost[S, 2] = [inst.cost[S, 2][0], ctx.half("c", 0, 30)]

    def dual(prob, name, c):
        if c.sense <= 0:
            return 0
        return ctx.free_dual(len(ctx.lp_calls())) if name.endswith("1") else 8

    ctx.policy.duals = dual


def fleet_duals(ctx, inst):
    """one dual for the customers, one for each vehicle type"""
    inst.args["num_stops"] = 2
    inst.args["fixed_cost"] = [6, 11]
    inst.args["num_vehicles"] = [1, 2]
    seen = {}

    def dual(prob, name, c):
        key = (len(ctx.lp_calls()), name if c.sense <= 0 else "")
        if key not in seen:
            seen[key] = ctx.free_dual(len(seen))
            if c.sense <= 0:
                seen[key] = -seen[key]
        return seen[key]

    ctx.policy.duals = dual


# neither capacity nor stops: the known finding
special("C15", "mono_cs")(complete("", True, dual="one"))
special("C15", "ex_cs_two")(complete("cap", True, max_iter=2))
special("C15", "ex_lp_two")(complete("stops cap", False, max_iter=2))
special("C15", "ex3_cs_cap", "thorough")(complete("cap", True, n=3, dual="one"))
special("C15", "ex3_cs_stops")(complete("stops", True, n=3))
special("C15", "ex3_cs_costs")(complete("stops", True, n=3, symc="inner", dual="one", elementary=True))
special("C15", "ex3_cs_dur")(complete("dur stops", True, n=3, dual="one", elementary=True))
special("C15", "ex3_cs_tw", "thorough")(complete("tw stops", True, n=3, dual="one", elementary=True))
special("C15", "ex3_cs_sdc")(complete("sdc", True, n=3, dual="one"))
special("C15", "ex3_lp_cap")(complete("cap", False, n=3))
special("C15", "ex3_lp_dur")(complete("dur", False, n=3))
special("C15", "ex3_lp_costs", "thorough")(complete("stops", False, n=3, symc="inner", dual="one"))
special("C15", "ex3_lp_tw", "thorough")(complete("tw", False, n=3, dual="one"))
special("C15", "ex_cs_cap")(complete("cap", True))
special("C15", "ex_cs_elem")(complete("cap stops", True, elementary=True))
special("C15", "ex_cs_dur")(complete("dur stops", True))
special("C15", "ex_cs_nv")(complete("cap nv", True))
special("C15", "ex_cs_tw")(complete("tw cap", True))
special("C15", "ex_cs_sdc")(complete("sdc", True))
special("C15", "ex_cs_mixed")(complete("cap fix", True, types=2, hi=999, wide=False))
special("C15", "ex_cs_knap")(complete("cap", True, knap=True, hi=3))
special("C15", "ex_lp_cap")(complete("cap", False))
special("C15", "ex_lp_stops")(complete("stops nv", False, n=3, dual="one"))
special("C15", "ex_lp_dur")(complete("dur", False))
special("C15", "ex_lp_tw")(complete("tw", False))
for _n, _f, _c in (("cs_sdc", "sdc stops", True), ("cs_dur", "dur stops", True), ("lp_cap", "cap", False),
                   ("lp_sdc", "sdc", False), ("lp_dur", "dur stops", False), ("cs_cap", "cap", True), ("cs_stops", "stops", True), ("cs_tw", "tw stops", True), ("cs_sdcdur", "sdc dur stops", True), ("lp_sdcdur", "sdc dur", False)):
    special("C15", "ex_%s_junk" % _n)(complete(_f, _c, junk=True))
for _n, _f, _k in [("drop", "stops drop", {}), ("all", "stops nv all", dict(dual="one")), ("period", "stops period", {}),
                   ("dropnv", "stops drop nv", dict(dual="one", wide=False)),
                   ("dropmix", "stops drop fix", dict(types=2, dual="one", wide=False, elementary=True))]:
    special("C15", "ex_cs_" + _n)(complete(_f, True, **_k))
    special("C15", "ex_lp_" + _n)(complete(_f, False, **{k: v for k, v in _k.items() if k != "elementary"}))


def given(lo, hi):
    def setup(ctx, inst):
        large.amounts(ctx, inst, lo, hi)

    return setup


special("C15", "ex_lp_big")(complete("", False, n=5, dual="one", setup=given(5, 40), missing=large.chain(5)))
special("C15", "ex_cs_big")(complete("", True, n=6, dual="one", setup=given(5, 40), missing=large.chain(6)))
special("C15", "ex_lp_twfrac")(complete("tw", False, frac=True))
special("C15", "ex_cs_twfrac")(complete("tw stops", True, frac=True))
special("C15", "ex_lp_sdc")(complete("sdc", False))
special("C15", "ex_lp_mixed")(complete("cap fix", False, types=2, hi=999, wide=False))
special("C15", "ex_lp_knap")(complete("cap", False, knap=True, hi=3))
special("C15", "ex_lp_pd")(complete("pd tw", False, requests={1: 2}))
special("C15", "ex_cs_mixnv")(complete("nv", True, types=2, elementary=True, setup=fleet_duals, wide=False))
special("C15", "ex_lp_mixnv")(complete("nv", False, types=2, setup=fleet_duals, wide=False))
special("C15", "ex4_lp_pd", "thorough")(complete("pd", False, n=4))
for _s in ("BestEdges1", "BestEdges2", "BestPaths", "Hyper"):
    special("C15", "ex_%s_cs" % _s)(complete("cap", True, strategy=_s, dual="one", elementary=True))
    special("C15", "ex_%s_lp" % _s)(complete("stops", False, strategy=_s, dual="one"))
    special("C15", "ex_%s_mix" % _s, "quick" if "Edges" in _s else "thorough")(complete("", True, strategy=_s, types=2, elementary=True, run_exact=50, setup=one_cost))


# ------------------------------------------------------------------ C19 columns
PROPS["C19"] = Prop("C19", [], None)


def columns(feats, cspy, n=2, types=1, strategy="Exact", symc=False, dual="free", iters=1, greedy=False, setup=None,
            requests=None, label=None, wide=True, **kw):
    """columns that enter the selection problem between two of its solves"""
    def f(ctx):
        inst = build(ctx, n, feats, types=types, symc=symc, requests=requests, label=label, wide=wide)
        if dual == "one":
            one_dual(ctx)
        if setup:
            setup(ctx, inst)
        m = Master(ctx, inst)
        found = []
        ctx.policy.on_cspy.append(lambda alg: found.append((len(m.rounds), alg.path)))
        ini = [list(r) for r in roundtrips(inst)]
        r = price(ctx, inst, cspy, iters=iters, pricing_strategy=strategy, greedy=greedy, initial_routes=ini, **kw)
        if not m.rounds:
            ctx.skip("solve raised %s" % type(r.out.exc).__name__)
        obs = [("columns", True)]
        for i in range(1, len(m.rounds)):
            rnd = m.rounds[i]
            for name in m.new_columns(i):
                cost, rows, var = rnd["cols"][name]
                visits = []
                for v in inst.customers:
                    x = rows.get(m.row[v], 0)
                    if is_sym(x) or x != int(x) or x < 0:
                        ctx.skip("the selection problem cannot be read")
                    visits += [v] * int(x)
                # what it may be: a route of the network, or a walk cspy returned
                cands = [p for p in inst.simple_routes() if sorted(map(str, p[1:-1])) == sorted(map(str, visits))]
                walks = [p for k, p in found if k == i and p is not None
                         and sorted(map(str, p[1:-1])) == sorted(map(str, visits)) and p not in cands]
                alts = []
                for k in range(types):
                    if inst.args.get("num_vehicles") is not None and len(m.fleet) == types:
                        used = [rows.get(t, 0) for t in m.fleet]
                        if [int(x) for x in used] != [int(t == k) for t in range(types)]:
                            continue
                    red = m.reduced(i - 1, visits, cost, k)
                    for p in cands:
                        alts.append(And(cost == inst.route_cost(p, k), inst.route_feasible(p, k), red < 0))
                    for p in walks:
                        # a walk through a customer twice is never part of a solution, its cost is not used
                        alts.append(red < 0)
                obs.append(("column for %s: wrong cost, wrong vehicle type, not feasible or not improving" % (visits,),
                            Or(*alts)))
                # interchangeable with nothing it should not be
                extra = [t for t in rows if t not in m.row.values() and t not in m.fleet]
                obs.append(("column for %s is in other rows" % (visits,), not extra))
        return obs

    return f


def greedy_only(ctx, inst):
    ctx.policy.cspy_filter = lambda p: False


def through_one(ctx, inst):
    ctx.policy.cspy_filter = lambda p: p[1] == inst.label(1) and len(p) > 3


special("C19", "col_cs_cap")(columns("cap", True, symc="inner"))
special("C19", "col_cs_three")(columns("stops", True, n=3, dual="one"))
special("C19", "col_cs_nv")(columns("cap nv fix", True))
special("C19", "col_cs_mixed")(columns("cap fix nv", True, types=2, dual="one", label=lab, setup=through_one))
special("C19", "col_cs_dur")(columns("dur stops", True, dual="one", n=3, elementary=True))
special("C19", "col_cs_tw")(columns("tw cap", True))
special("C19", "col_cs_sdc")(columns("sdc", True, dual="one"))
special("C19", "col_cs_drop")(columns("stops drop", True))
special("C19", "col_cs_two")(columns("cap", True, iters=2, elementary=True))
special("C19", "col_lp_cap")(columns("cap", False, symc="inner"))
special("C19", "col_lp_three")(columns("stops nv", False, n=3))
special("C19", "col_lp_mixed")(columns("cap fix nv", False, types=2))
special("C19", "col_lp_dur")(columns("dur", False, n=3))
special("C19", "col_lp_tw")(columns("tw drop", False))
special("C19", "col_lp_tw3", "thorough")(columns("tw drop", False, n=3))
special("C19", "col_lp_sdc")(columns("sdc", False))
special("C19", "col_lp_pd")(columns("pd", False, n=4))
special("C19", "col_lp_two")(columns("stops cap", False, iters=2))
special("C19", "col_gr_cap")(columns("cap nv fix", True, greedy=True, setup=greedy_only, dual="one"))
special("C19", "col_gr_dur")(columns("dur stops", True, greedy=True, setup=greedy_only, dual="one"))
for _s in ("BestEdges1", "BestEdges2", "BestPaths"):
    special("C19", "col_%s_cs" % _s)(columns("cap", True, strategy=_s, dual="one", elementary=True,
                                                  setup=through_one))
    special("C19", "col_%s_lp" % _s)(columns("stops", False, strategy=_s, dual="one"))


# ------------------------------------------------------------------ C16 limits
PROPS["C16"] = Prop("C16", [], None)


def any_clock(ctx):
    """arbitrary non-decreasing instants"""
    last = []

    def clock(k):
        d = ctx.half("dt%d" % k, 0, 40)
        last.append(d if not last else last[-1] + d)
        return last[-1]

    ctx.policy.clock = clock


def kind_of(ev, first):
    """what a solver call is for, judged by the problem handed over"""
    if ev[0] == "cspy":
        return "pricing"
    if ev[1] is not first:
        return "other"
    vs = ev[1].variables()
    whole = all(v.cat == "Integer" for v in vs
                if v.name in ev[3].values and v.upBound is not None and v.lowBound != v.upBound)
    return "selection" if whole and any(c.sense == 0 for c in ev[1].constraints.values()) else "relaxed"


def limits(feats, cspy, n=2, strategy="Exact", iters=2, types=1, final="last", setup=None, timed=True, label=None,
           **kw):
    def f(ctx):
        inst = build(ctx, n, feats, types=types, label=label)
        one_dual(ctx)
        ctx.policy.cspy_filter = lambda p: p[1] == inst.label(1) and len(p) > 3
        if setup:
            setup(ctx, inst)
        seen = []
        env.STATE.kinds = {}

        def on_lp(prob, sol):
            # the kind is read when the call is made, before the code changes the problem
            ev = env.STATE.events[-1]
            if not seen:
                seen.append(prob)
            env.STATE.kinds[len(env.STATE.events) - 1] = kind_of(ev, seen[0])

        ctx.policy.on_lp.append(on_lp)
        opts = dict(pricing_strategy=strategy, cspy=cspy, initial_routes=roundtrips(inst), max_iter=iters)
        limit = None
        if timed:
            any_clock(ctx)
            limit = ctx.int("T", 1, 30)
            opts["time_limit"] = limit
        N = opts["max_iter"]
        if N == "sym":
            N = opts["max_iter"] = ctx.int("N", 1, 3)
        opts.update(kw)
        r = go(ctx, inst, **opts)
        if not r.ok:
            return [("solve raised %s" % type(r.out.exc).__name__, False)]
        obs = list(o_cover(inst, r.prob)) if not inst.args.get("periodic") and "drop_penalty" not in inst.args else []
        evs = env.STATE.events
        if N is not None and not kw.get("dive"):
            rounds = len([1 for k in env.STATE.kinds.values() if k == "relaxed"])
            obs.append(("%d rounds of column generation" % rounds, rounds <= N))
        if not timed:
            return obs
        start = next((e[1] for e in evs if e[0] == "time"), None)
        if start is None:
            return obs + [("the clock is never read", False)]
        fresh = []
        for i, e in enumerate(evs):
            if e[0] == "time":
                fresh.append(limit - (e[1] - start))
                continue
            kind = env.STATE.kinds.get(i, "pricing")
            tau = e[2]
            prev = evs[i - 1]
            same = e[0] == "cspy" and prev[0] == "cspy" and e[1].elementary and not prev[1].elementary
            if tau is None:
                obs.append(("%s solver call without a limit" % kind, False))
            elif same:
                obs.append(("second attempt gets more time", tau <= prev[2]))
            else:
                ok = Or(*[tau <= x for x in fresh]) if fresh else False
                if kind == "selection":
                    ok = Or(ok, tau <= 5)
                if kind == "relaxed" or kind == "other" and final == "schedule":
                    ok = Or(ok, tau <= 0)
                obs.append(("%s solver call: more than the remaining time" % kind, ok))
                if kind == "pricing" or kind == "other" and final != "schedule":
                    obs.append(("%s solver call after the time limit" % kind, Or(*[x > 0 for x in fresh]) if fresh else False))
            fresh = [] if not same else fresh
        return obs

    return f


def fixed_duals(ctx, inst):
    ctx.policy.duals = lambda p, n, c: 20 if c.sense > 0 else 0
    ctx.policy.choice_budget = 3


special("C16", "lim_cs")(limits("stops", True))
special("C16", "lim_cs_elem")(limits("stops", True, elementary=True))
special("C16", "lim_lp")(limits("stops", False))
special("C16", "lim_edges1_cs")(limits("stops", True, strategy="BestEdges1", iters=1, elementary=True, setup=fixed_duals))
special("C16", "lim_edges1_lp")(limits("stops", False, strategy="BestEdges1", iters=1, setup=fixed_duals))
special("C16", "lim_edges2_cs")(limits("cap", True, strategy="BestEdges2", iters=1, elementary=True))
special("C16", "lim_paths_cs")(limits("stops", True, strategy="BestPaths", iters=1, elementary=True, setup=fixed_duals))
special("C16", "lim_paths_lp")(limits("stops", False, strategy="BestPaths", iters=1, setup=fixed_duals))
special("C16", "lim_edges1_free", "thorough")(limits("cap", True, strategy="BestEdges1", iters=1, elementary=True))
special("C16", "lim_paths_free", "thorough")(limits("cap", True, strategy="BestPaths", iters=1, elementary=True))
special("C16", "lim_mixed")(limits("stops fix", False, types=2, iters=1))
special("C16", "lim_pd")(limits("pd", False, iters=1, n=4))
special("C16", "lim_period")(limits("period stops", True, iters=1, final="schedule", elementary=True))
special("C16", "iter_cs")(limits("stops", True, iters="sym", timed=False, elementary=True))
special("C16", "iter_lp")(limits("stops", False, iters="sym", timed=False))
special("C16", "iter_lp_cap", "thorough")(limits("cap", False, iters="sym", timed=False))
special("C16", "iter_hyper")(limits("stops", True, strategy="Hyper", iters="sym", timed=False, elementary=True,
                                    setup=fixed_duals))


# ------------------------------------------------------------------ C18 histories
PROPS["C18"] = Prop("C18", [], None)


def snapshot(G):
    return {
        "nodes": {v: dict(d) for v, d in G.nodes(data=True)},
        "edges": {(i, j): {k: list(x) if isinstance(x, list) else x for k, x in d.items()}
                  for i, j, d in G.edges(data=True)},
    }


def same_data(a, b):
    """obligations: two snapshots describe the same network"""
    obs = [("nodes added or removed", set(a["nodes"]) == set(b["nodes"])),
           ("edges added or removed", set(a["edges"]) == set(b["edges"]))]
    for part in ("nodes", "edges"):
        for k, d in a[part].items():
            e = b[part].get(k)
            if e is None:
                continue
            obs.append(("attributes of %s" % (k,), set(d) == set(e)))
            for name, x in d.items():
                if name not in e:
                    continue
                y = e[name]
                if isinstance(x, list) or isinstance(y, list):
                    if not (isinstance(x, list) and isinstance(y, list) and len(x) == len(y)):
                        obs.append(("%s of %s" % (name, k), False))
                    else:
                        obs.append(("%s of %s" % (name, k), And(*[p == q for p, q in zip(x, y)])))
                else:
                    obs.append(("%s of %s" % (name, k), x == y))
    return obs


def result_of(prob):
    rs = [(r, prob.best_routes_type[k]) for k, r in prob.best_routes.items()]
    days = prob.schedule
    if days:
        days = sorted((d, sorted(prob.best_routes[k] for k in ks)) for d, ks in days.items())
    return sorted(rs, key=lambda x: (len(x[0]), [str(v) for v in x[0]], x[1])), days


def same_result(ctx, out, prob, ref_out, ref):
    if out.ok != ref_out.ok:
        return [("solve after other solves: %s, on a fresh problem: %s" % (
            "returns" if out.ok else type(out.exc).__name__, "returns" if ref_out.ok else type(ref_out.exc).__name__), False)]
    if not out.ok:
        return [("same error", type(out.exc) is type(ref_out.exc))]
    a, b = result_of(prob), result_of(ref)
    obs = [("other routes than a fresh problem: %s, %s" % (a[0], b[0]), a[0] == b[0])]
    if a[0] == b[0]:
        obs.append(("other value than a fresh problem", prob.best_value == ref.best_value))
        obs.append(("other schedule than a fresh problem", a[1] == b[1]))
    return obs


def solve_in_order(ctx, prob, kw):
    # networks hash by identity: same starting point for every solve
    env._det_hash_counter[0] = 0
    kw = {k: [list(x) for x in v] if isinstance(v, list) else v for k, v in kw.items()}
    return ctx.call(prob.solve, **kw)


def history(feats, X, Y, n=2, types=1, symc=False, setup=None, missing=(), two=False, change=None, xargs=None, **bk):
    """solve(X) then solve(Y) on one object (or: X on another object that
    shares the network) compared with solve(Y) on a fresh one"""
    def f(ctx):
        inst = build(ctx, n, feats, types=types, symc=symc, missing=missing, **bk)
        ctx.policy.deterministic = True
        ctx.policy.grain = 4
        one_dual_by_problem(ctx)
        if setup:
            setup(ctx, inst)
        x, y = X(inst) if callable(X) else X, Y(inst) if callable(Y) else Y
        from vrpy import VehicleRoutingProblem

        G = inst.graph()
        args = {k: list(v) if isinstance(v, list) else v for k, v in inst.args.items()}
        if two:
            a2 = dict(args)
            a2.update(xargs or {})
            first = VehicleRoutingProblem(G, **{k: list(v) if isinstance(v, list) else v for k, v in a2.items()})
            prob = None
        else:
            prob = first = VehicleRoutingProblem(G, **args)
        before = snapshot(G)
        o1 = solve_in_order(ctx, first, x)
        obs = same_data(before, snapshot(G))
        if prob is None:
            prob = VehicleRoutingProblem(G, **args)
        out = solve_in_order(ctx, prob, y)
        obs += same_data(before, snapshot(G))
        for k, v in inst.args.items():
            if isinstance(v, list):
                obs.append(("the list %s was changed" % k, len(args[k]) == len(v) and And(*[p == q for p, q in zip(args[k], v)])))
        ref = inst.problem()
        ref_out = solve_in_order(ctx, ref, y)
        return obs + same_result(ctx, out, prob, ref_out, ref)

    return f


def one_dual_by_problem(ctx):
    ctx.policy.duals = lambda p, n, c: 20 if c.sense > 0 else 0


def lists_kept(feats, n=3):
    """the lists handed to solve are left as they were"""
    def f(ctx):
        inst = build(ctx, n, feats)
        no_columns(ctx)
        ini = [[S, 1, T], [S, 3, T]]
        lock = [[S, 2, T]]
        r = go(ctx, inst, initial_routes=ini, preassignments=lock, pricing_strategy="Exact")
        obs = [("initial_routes was changed", ini == [[S, 1, T], [S, 3, T]]),
               ("preassignments was changed", lock == [[S, 2, T]])]
        if r.ok:
            # what the user does with the result does not change the lists either
            obs.append(("results", True))
        return obs

    return f


_ini = lambda inst: dict(initial_routes=roundtrips(inst), pricing_strategy="Exact", max_iter=1)
_cs = lambda inst: dict(_ini(inst), cspy=True, elementary=True)
_lp = lambda inst: dict(_ini(inst), cspy=False)
_heur = dict(heuristic_only=True)
_default = dict(pricing_strategy="Exact", max_iter=1, elementary=True)
_locked = dict(preassignments=[[S, 1, T]], pricing_strategy="Exact", max_iter=1, cspy=False)
_dive = lambda inst: dict(_cs(inst), dive=True)
_divelp = lambda inst: dict(_lp(inst), dive=True)

special("C18", "his_cs")(history("cap fix", _cs, _cs))
special("C18", "his_lp")(history("cap stops", _lp, _lp))
special("C18", "his_cs_lp")(history("cap stops fix", _cs, _lp))
special("C18", "his_heur")(history("cap fix", _heur, _heur, n=3))
special("C18", "his_heur_default")(history("stops fix", _heur, _default))
special("C18", "his_default_heur")(history("dur", _default, _heur))
special("C18", "his_lock")(history("cap nv", _locked, _default))
special("C18", "his_lock_lock")(history("cap fix nv", _locked, _locked))
special("C18", "his_tw")(history("tw", _lp, _cs))
special("C18", "his_tw_def")(history("tw cap", dict(_default), dict(_default)))
special("C18", "his_drop")(history("drop stops", _lp, _cs))
special("C18", "his_mixed")(history("cap fix nv", _cs, _cs, types=2))
special("C18", "his_sdc")(history("sdc", _cs, _lp))
special("C18", "his_pd")(history("pd", _lp, _lp, requests={1: 2}))
special("C18", "his_period")(history("period stops nv", _cs, _cs))
special("C18", "his_span")(history("span stops", _lp, _lp))
special("C18", "his_dive")(history("stops", _dive, _cs))
special("C18", "his_dive_dive")(history("stops", _dive, _dive))
special("C18", "his_edges")(history("stops", lambda i: dict(_cs(i), pricing_strategy="BestEdges1"), _cs))
special("C18", "his_fail")(history("cap nv", dict(pricing_strategy="Wrong"), _default))
special("C18", "his_missing")(history("cap", _heur, _heur, n=3, missing=[(S, 2), (3, T)]))
special("C18", "two_fix")(history("cap", _cs, _cs, two=True, xargs=dict(fixed_cost=7)))
special("C18", "two_lock")(history("cap fix", _locked, _default, two=True))
special("C18", "two_tw")(history("tw", _lp, _lp, two=True))
special("C18", "two_dive")(history("stops", _divelp, _divelp, two=True))
special("C18", "two_drop")(history("stops", _cs, _cs, two=True, xargs=dict(drop_penalty=5, num_vehicles=1)))


def ticking(ctx, inst):
    """the clock advances by the same amount whenever it is read"""
    step = ctx.half("step", 1, 60)
    ctx.policy.clock = lambda k: step * k
    ctx.policy.cspy_filter = lambda p: len(p) > 3


_timed = lambda inst: dict(_cs(inst), time_limit=20)
_timedlp = lambda inst: dict(_lp(inst), time_limit=20)
special("C18", "his_timed")(history("stops", _timed, _timed, setup=ticking))
special("C18", "his_timed_lp")(history("stops fix", _timed, _timedlp, setup=ticking))
special("C18", "his_timed_cs")(history("stops", _timedlp, _cs, setup=ticking))
special("C18", "lists_cap")(lists_kept("cap fix"))


# ------------------------------------------------------------------ C17 rejected input
def rejected(name, tier="quick"):
    """fn(ctx) -> callable that must raise before any solver is called"""
    def deco(fn):
        def f(ctx):
            out = ctx.call(fn(ctx))
            made = [e for e in env.STATE.events if e[0] != "time"]
            return [("accepted", not out.ok), ("a solver was called first", not made)]

        special("C17", name, tier)(f)
        return fn

    return deco


def solving(inst, **kw):
    return lambda: inst.problem().solve(**kw)


@rejected("bad_demand")
def _(ctx):
    inst = build(ctx, 3, "stops")
    inst.args["load_capacity"] = ctx.int("Q", 1, 1000)
    for v in inst.customers:
        inst.demand[v] = ctx.int("d_%s" % v, 0, 1000)
    ctx.assume(Or(*[inst.demand[v] > inst.args["load_capacity"] for v in inst.customers]))
    return solving(inst, cspy=ctx.pick("cspy", [True, False]))


@rejected("bad_demand_mixed")
def _(ctx):
    inst = build(ctx, 2, "", types=2)
    caps = [ctx.int("Q%d" % k, 1, 1000) for k in range(2)]
    inst.args["load_capacity"] = caps
    for v in inst.customers:
        inst.demand[v] = ctx.int("d_%s" % v, 0, 1000)
    ctx.assume(Or(*[inst.demand[v] > smax(caps) for v in inst.customers]))
    return solving(inst)


@rejected("bad_duration")
def _(ctx):
    inst = build(ctx, 2, "")
    inst.with_time = True
    for v in inst.customers:
        inst.service[v] = ctx.int("s_%s" % v, 0, 9)
    inst.args["duration"] = ctx.int("D", 1, 60)
    ctx.assume(Or(*[inst.duration(r) > inst.args["duration"] for r in roundtrips(inst)]))
    return solving(inst, heuristic_only=ctx.pick("heur", [True, False]))


@rejected("bad_numbers")
def _(ctx):
    inst = build(ctx, 2, "")
    which = ctx.pick("which", ["num_stops", "load_capacity", "duration"])
    inst.args[which] = ctx.int("X", -50, -1)
    inst.with_time = True
    return solving(inst, heuristic_only=ctx.pick("heur", [True, False]))


@rejected("bad_types")
def _(ctx):
    inst = build(ctx, 2, "")
    inst.args[ctx.pick("which", ["num_stops", "load_capacity", "duration"])] = ctx.half("X", 1, 50)
    inst.with_time = True
    return solving(inst)


@rejected("bad_mixed")
def _(ctx):
    inst = build(ctx, 2, "", types=2)
    names = ["load_capacity", "num_vehicles", "fixed_cost"]
    short = ctx.pick("short", names)
    given = ctx.pick("given", [names, [x for x in names if x in (short, names[0], names[1])],
                               [x for x in names if x in (short, names[1], names[2])]])
    if len(given) < 2:
        ctx.skip("nothing to compare with")
    for x in given:
        inst.args[x] = [ctx.int("%s%d" % (x, k), 5, 9) for k in range(1 if x == short else 2)]
    return solving(inst)


@rejected("bad_costs")
def _(ctx):
    inst = build(ctx, 2, "", types=2)
    inst.args["load_capacity"] = [5, 6]
    e = ctx.pick("edge", list(inst.cost))
    inst.cost[e] = inst.cost[e][:1]
    return solving(inst)


@rejected("bad_network")
def _(ctx):
    inst = build(ctx, 2, "")
    G = inst.graph()
    what = ctx.pick("what", ["no Source", "no Sink", "into Source", "out of Sink", "no cost", "undirected"])
    if what == "no Source":
        G.remove_node(S)
    elif what == "no Sink":
        G.remove_node(T)
    elif what == "into Source":
        G.add_edge(ctx.pick("v", inst.customers), S, cost=1)
    elif what == "out of Sink":
        G.add_edge(T, ctx.pick("v", inst.customers), cost=1)
    elif what == "no cost":
        del G.edges[ctx.pick("e", list(inst.cost))]["cost"]
    else:
        G = G.to_undirected()

    def run():
        from vrpy import VehicleRoutingProblem

        VehicleRoutingProblem(G).solve()

    return run


@rejected("bad_routes")
def _(ctx):
    inst = build(ctx, 3, "stops", missing=[(1, 3)])
    bad = ctx.pick("routes", [
        [[S, 1, T], [S, 2, T]], [[S, 1, 2, T]], [[1, 2, T], [S, 3, T]], [[S, 1, 2], [S, 3, T]],
        [[S, 1, 3, T], [S, 2, T]], [[T, 1, 2, 3, S]], [[S, 2, 1, 3, T]],
    ])
    return solving(inst, initial_routes=bad, pricing_strategy="Exact", cspy=ctx.pick("cspy", [True, False]))


@rejected("bad_locks")
def _(ctx):
    inst = build(ctx, 3, "stops", missing=[(1, 3)])
    bad = ctx.pick("routes", [[[S, 1, 3, T]], [[S, 2, T], [1, 3]], [[S, 2, 1, 3, T]]])
    return solving(inst, preassignments=bad)


@rejected("bad_options")
def _(ctx):
    k = ctx.pick("which", ["strategy", "pd cspy", "no request", "cw tw", "cw mixed", "cw sdc", "cw pd", "cw period"])
    if k == "strategy":
        return solving(build(ctx, 2, "stops"), pricing_strategy="exact")
    if k == "pd cspy":
        return solving(build(ctx, 2, "pd", requests={1: 2}), cspy=True)
    if k == "no request":
        inst = build(ctx, 2, "pd", requests={1: 2})
        inst.request.clear()
        return solving(inst, cspy=False)
    if k == "cw tw":
        return solving(build(ctx, 2, "tw"), heuristic_only=True)
    if k == "cw mixed":
        return solving(build(ctx, 2, "cap", types=2), heuristic_only=True)
    if k == "cw sdc":
        return solving(build(ctx, 2, "sdc"), heuristic_only=True)
    if k == "cw pd":
        return solving(build(ctx, 2, "pd", requests={1: 2}), heuristic_only=True, cspy=False)
    return solving(build(ctx, 2, "period"), heuristic_only=True)


@rejected("bad_request")
def _(ctx):
    inst = build(ctx, 2, "")
    inst.args.update(pickup_delivery=True, time_windows=True, load_capacity=10)
    inst.with_time = True
    inst.request[1] = 2
    inst.demand.update({1: 3, 2: -3})
    inst.lower[S], inst.upper[S] = 0, 60
    inst.lower[T], inst.upper[T] = 0, ctx.int("b_T", 20, 60)
    for v in inst.customers:
        inst.service[v] = ctx.int("s_%s" % v, 0, 5)
        inst.lower[v] = ctx.int("a_%s" % v, 0, 30)
        inst.upper[v] = ctx.int("b_%s" % v, 0, 40)
        ctx.assume(inst.lower[v] <= inst.upper[v])
    # even at its earliest the pickup is too late for the delivery
    ctx.assume(inst.lower[1] + inst.service[1] + inst.t(1, 2) > inst.upper[2])
    return solving(inst, cspy=False)


from . import mixes  # noqa
