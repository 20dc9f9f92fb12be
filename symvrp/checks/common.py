"""Families of runs of the real solver, each with symbolic data.

A family builds an instance (as a user would), calls solve() and returns a Run.
The properties (props.py) put their oracles on top of the families.
"""
from ..model import *  # noqa
from ..model import S, T, Inst
from ..sym import And, Implies, Ite, Not, Or, is_sym, smax, smin


class Run:
    def __init__(self, inst, prob, out, **extra):
        self.inst, self.prob, self.out = inst, prob, out
        self.__dict__.update(extra)

    @property
    def ok(self):
        return self.out.ok


class Fam:
    def __init__(self, name, fn, tags, tier):
        self.name, self.fn, self.tags, self.tier = name, fn, set(tags.split()), tier


FAMS = {}


def family(name, tags, tier="quick"):
    def deco(fn):
        assert name not in FAMS, name
        FAMS[name] = Fam(name, fn, tags, tier)
        return fn

    return deco


def build(ctx, n=3, feats="", symc=False, types=1, missing=(), label=None, hi=1000, symt=False,
          sink="given", requests=None, freq=None, wide=True, frac=False):
    """An instance with symbolic data; the stated assumptions restrict it to
    problems whose single-customer (or single-request) routes are feasible."""
    feats = set(feats.split())
    inst = Inst(n, missing, types, label)
    a = inst.args
    C = inst.customers
    money = wide and (1000 if wide is True else wide) or 1  # scale of costs, penalties and dual values
    ctx.policy.dual_bound = 60 * money
    if types > 1:
        a["mixed_fleet"] = True
    if symc:
        for (i, j) in list(inst.cost):
            if symc == "inner" and (i == S or j == T):
                continue
            if symc == "outer" and not (i == S or j == T):
                continue
            inst.cost[i, j] = [
                ctx.half("c_%s_%s_%d" % (i, j, k), 0, 30 * money) for k in range(types)
            ]
    if "cap" in feats or "sdc" in feats:
        for v in C:
            inst.demand[v] = amount(ctx, "d_%s" % v, hi)
        caps = [ctx.int("Q%d" % k, 1, hi) for k in range(types)]
        a["load_capacity"] = caps if types > 1 else caps[0]
        big = smax(caps) if types > 1 else caps[0]
        for v in C:
            ctx.assume(inst.demand[v] <= big)
    if "sdc" in feats:
        a["distribution_collection"] = True
        for v in C:
            inst.collect[v] = amount(ctx, "q_%s" % v, hi)
            ctx.assume(inst.collect[v] <= big)
    if "pd" in feats:
        a["pickup_delivery"] = True
        caps = [ctx.int("Q%d" % k, 1, hi) for k in range(types)]
        a["load_capacity"] = caps if types > 1 else caps[0]
        big = smax(caps) if types > 1 else caps[0]
        for p, d in (requests or {1: 2, 3: 4}).items():
            p, d = inst.label(p), inst.label(d)
            inst.request[p] = d
            x = amount(ctx, "d_%s" % p, hi)
            ctx.assume(x <= big)
            inst.demand[p] = x
            inst.demand[d] = -x
    if "dur" in feats or "tw" in feats:
        inst.with_time = True
        num = ctx.half if frac or "tw" not in feats else ctx.int
        for v in C:
            inst.service[v] = num("s_%s" % v, 0, 500)
    if symt:
        for e in list(inst.time):
            if symt == "inner" and (e[0] == S or e[1] == T):
                continue
            inst.time[e] = ctx.half("t_%s_%s" % e, 0, 900)
    if "stops" in feats:
        a["num_stops"] = ctx.int("K", 1, n + 1)
    if "tw" in feats:
        a["time_windows"] = True
        inst.lower[S] = num("a_S", 0, 300)
        inst.upper[S] = 9000
        for v in C:
            inst.lower[v] = num("a_%s" % v, 0, 3000)
            inst.upper[v] = num("b_%s" % v, 0, 6000)
            ctx.assume(inst.lower[v] <= inst.upper[v])
        if sink == "given":
            inst.lower[T] = 0
            inst.upper[T] = num("b_T", 1, 9000)
        for r in roundtrips(inst):
            ctx.assume(inst.windows_ok(r))
    if "dur" in feats:
        a["duration"] = ctx.int("D", 1, 9000)
        for r in roundtrips(inst):
            ctx.assume(inst.duration(r) <= a["duration"])
    if "drop" in feats:
        a["drop_penalty"] = ctx.half("P", 1, 60 * money)
    if "nv" in feats:
        nv = [ctx.int("NV%d" % k, 1, n) for k in range(types)]
        a["num_vehicles"] = nv if types > 1 else nv[0]
    if "all" in feats:
        a["use_all_vehicles"] = True
    if "fix" in feats:
        f = [ctx.half("F%d" % k, 1, 40 * money) for k in range(types)]
        a["fixed_cost"] = f if types > 1 else f[0]
    if "span" in feats:
        a["minimize_global_span"] = True
    if "period" in feats:
        a["periodic"] = 2
        for v, f in (freq or {1: 2}).items():
            inst.frequency[inst.label(v)] = f
    ctx.policy.knapsack_stub = True
    return inst


def amount(ctx, name, hi):
    """a quantity of goods; whole numbers where the real knapsack bound runs"""
    return ctx.half(name, 0, hi) if hi >= 1000 else ctx.int(name, 0, hi)


def roundtrips(inst):
    if inst.args.get("pickup_delivery"):
        return [[S, p, d, T] for p, d in inst.request.items()]
    return [[S, v, T] for v in inst.customers]


def go(ctx, inst, **kw):
    prob = inst.problem()
    if kw.get("dive"):
        ctx.policy.grain = 4
    out = ctx.call(prob.solve, **kw)
    return Run(inst, prob, out, kw=kw)


def no_columns(ctx):
    """the pricing problem offers nothing"""
    ctx.policy.duals = lambda *a: 0
    ctx.policy.cspy_filter = lambda p: False


def best_selection(ctx):
    """the solver answers the final selection problem with an optimal choice"""
    def is_selection(prob):
        import pulp

        master = next((p for p, _ in ctx.lp_calls() if len(p.constraints) > 1), prob)
        if prob is not master:
            return False
        vs = prob.variables()
        return any(v.cat == pulp.LpInteger for v in vs) and all(
            v.cat == pulp.LpInteger or v.upBound is None or v.lowBound == v.upBound for v in vs)

    ctx.policy.lp_optimal = is_selection


def one_dual(ctx):
    """the duals of the covering rows coincide (one symbol per master solve)"""
    seen = {}

    def dual(prob, name, c):
        if c.sense <= 0:
            return 0
        key = len(ctx.lp_calls())
        if key not in seen:
            seen[key] = ctx.free_dual(key)
        return seen[key]

    ctx.policy.duals = dual


def price(ctx, inst, cspy, iters=1, **kw):
    kw.setdefault("pricing_strategy", "Exact")
    kw.setdefault("initial_routes", roundtrips(inst))
    return go(ctx, inst, cspy=cspy, max_iter=iters, **kw)


def lab(i):
    return "c%d" % i


# ---------------------------------------------------------------- heuristics
@family("cw_cap", "cap cw")
def _(ctx):
    return go(ctx, build(ctx, 4, "cap"), heuristic_only=True)


@family("cw_costs", "cap cw costs")
def _(ctx):
    return go(ctx, build(ctx, 3, "cap", symc="inner", missing=[(2, 1), (3, 2)]), heuristic_only=True)


@family("cw_dur", "dur cw times")
def _(ctx):
    return go(ctx, build(ctx, 3, "dur", symt=True), heuristic_only=True)


@family("cw_all", "cap dur stops fix cw labels")
def _(ctx):
    return go(ctx, build(ctx, 3, "cap dur stops fix", label=lab), heuristic_only=True)


@family("cw_stops", "stops cw")
def _(ctx):
    return go(ctx, build(ctx, 4, "stops"), heuristic_only=True)


@family("cw_depot", "cap cw missing")
def _(ctx):
    return go(ctx, build(ctx, 3, "cap", missing=[(S, 2), (3, T)]), heuristic_only=True)


@family("cw_big", "cap dur stops cw", tier="thorough")
def _(ctx):
    return go(ctx, build(ctx, 4, "cap dur stops"), heuristic_only=True)


# ------------------------------------------------- built-in initial solutions
@family("ini_cap", "cap stops ini")
def _(ctx):
    inst = build(ctx, 3, "cap stops")
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("ini_dur", "dur stops ini")
def _(ctx):
    inst = build(ctx, 3, "dur stops")
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact", cspy=False)


@family("ini_times", "dur ini times", tier="thorough")
def _(ctx):
    inst = build(ctx, 3, "dur stops", symt="inner")
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact", cspy=False)


@family("ini_drop", "cap drop nv fix ini")
def _(ctx):
    inst = build(ctx, 3, "cap drop nv fix")
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("ini_all", "stops nv all ini")
def _(ctx):
    inst = build(ctx, 3, "stops nv all")
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("ini_tw", "tw cap ini")
def _(ctx):
    inst = build(ctx, 3, "cap tw")
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("ini_pd", "pd ini mixed")
def _(ctx):
    inst = build(ctx, 4, "pd", types=2)
    no_columns(ctx)
    return go(ctx, inst, cspy=False)


@family("ini_sdc", "sdc mixed ini fix")
def _(ctx):
    inst = build(ctx, 3, "sdc fix", types=2)
    no_columns(ctx)
    return go(ctx, inst)


@family("ini_mixed", "cap mixed ini fix nv")
def _(ctx):
    inst = build(ctx, 3, "cap fix", types=3)
    inst.args["num_vehicles"] = [1, 2, 3]
    no_columns(ctx)
    return go(ctx, inst)


@family("ini_mixnv", "cap mixed ini nv costs")
def _(ctx):
    inst = build(ctx, 2, "cap nv", types=2, symc="outer")
    no_columns(ctx)
    return go(ctx, inst)


@family("ini_mixbig", "cap mixed ini fix nv costs", tier="thorough")
def _(ctx):
    inst = build(ctx, 3, "cap fix nv", types=3, symc=True)
    no_columns(ctx)
    return go(ctx, inst)


@family("ini_fixed", "stops mixed fix ini")
def _(ctx):
    # a mixed fleet that differs by its costs only
    inst = build(ctx, 2, "stops fix", types=2)
    no_columns(ctx)
    return go(ctx, inst)


@family("ini_span", "cap span ini")
def _(ctx):
    inst = build(ctx, 2, "cap span fix")
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("ini_spanmix", "cap span ini mixed nv")
def _(ctx):
    inst = build(ctx, 2, "cap span nv", types=2)
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("ini_period", "cap period ini nv")
def _(ctx):
    inst = build(ctx, 3, "cap period nv")
    no_columns(ctx)
    best_selection(ctx)
    return go(ctx, inst)


# ---------------------------------------------------------------- LP pricing
@family("lp_cap", "cap lp")
def _(ctx):
    return price(ctx, build(ctx, 3, "cap"), False)


@family("lp_costs", "cap lp costs")
def _(ctx):
    return price(ctx, build(ctx, 3, "cap", symc="inner"), False)


@family("lp_dur", "dur lp times")
def _(ctx):
    return price(ctx, build(ctx, 3, "dur", symt="inner"), False)


@family("lp_stops", "stops lp labels")
def _(ctx):
    return price(ctx, build(ctx, 3, "stops", label=lab), False)


@family("lp_tw", "tw lp")
def _(ctx):
    return price(ctx, build(ctx, 3, "tw"), False)


@family("lp_twcap", "tw cap dur lp")
def _(ctx):
    return price(ctx, build(ctx, 2, "tw cap dur"), False)


@family("lp_twfrac", "tw lp")
def _(ctx):
    """times that are not whole numbers"""
    return price(ctx, build(ctx, 2, "tw", frac=True, symt="inner"), False)


@family("cs_twfrac", "tw cs")
def _(ctx):
    return price(ctx, build(ctx, 2, "tw stops", frac=True, symt="inner"), True, elementary=True)


@family("lp_tw3", "tw cap lp", tier="thorough")
def _(ctx):
    return price(ctx, build(ctx, 3, "tw cap"), False)


@family("lp_pd", "pd lp")
def _(ctx):
    return price(ctx, build(ctx, 4, "pd"), False)


@family("lp_pdmix", "pd mixed lp")
def _(ctx):
    return price(ctx, build(ctx, 4, "pd", types=2, requests={2: 1, 4: 3}), False)


@family("lp_pdtw", "pd tw lp")
def _(ctx):
    return price(ctx, build(ctx, 2, "pd tw", requests={1: 2}), False)


@family("lp_sdc", "sdc lp")
def _(ctx):
    return price(ctx, build(ctx, 3, "sdc"), False)


@family("lp_mixed", "cap mixed fix lp")
def _(ctx):
    return price(ctx, build(ctx, 2, "cap fix", types=3), False)


@family("lp_drop", "drop stops nv lp")
def _(ctx):
    return price(ctx, build(ctx, 3, "drop stops nv"), False)


@family("lp_period", "period stops lp")
def _(ctx):
    best_selection(ctx)
    return price(ctx, build(ctx, 3, "period stops"), False)


@family("lp_span", "span cap lp")
def _(ctx):
    return price(ctx, build(ctx, 2, "span cap fix"), False)


@family("lp_span3", "span stops lp", tier="thorough")
def _(ctx):
    return price(ctx, build(ctx, 3, "span stops"), False)


@family("lp_two", "cap lp two")
def _(ctx):
    return price(ctx, build(ctx, 2, "cap stops"), False, iters=2)


# ---------------------------------------------------------------- cspy pricing
@family("cs_cap", "cap cs")
def _(ctx):
    return price(ctx, build(ctx, 3, "cap"), True)


@family("cs_dur", "dur cs times")
def _(ctx):
    return price(ctx, build(ctx, 3, "dur stops", symt="inner"), True)


@family("cs_tw", "tw cs")
def _(ctx):
    inst = build(ctx, 3, "tw stops")
    ctx.policy.cspy_any_walk_extra = 0
    return price(ctx, inst, True, elementary=True)


@family("cs_twcap", "tw cap dur cs")
def _(ctx):
    return price(ctx, build(ctx, 2, "tw cap dur", sink=None), True)


@family("cs_tw3", "tw cap stops cs", tier="thorough")
def _(ctx):
    return price(ctx, build(ctx, 3, "tw cap stops"), True)


@family("cs_sdc", "sdc cs")
def _(ctx):
    return price(ctx, build(ctx, 3, "sdc"), True)


@family("cs_sdcmix", "sdc mixed fix cs")
def _(ctx):
    return price(ctx, build(ctx, 2, "sdc fix", types=2), True)


@family("cs_mixed", "cap mixed fix cs nv labels")
def _(ctx):
    return price(ctx, build(ctx, 2, "cap fix nv", types=2, label=lab, hi=999, wide=False), True)


@family("cs_drop", "drop stops cs")
def _(ctx):
    return price(ctx, build(ctx, 3, "drop stops"), True, elementary=True)


@family("cs_period", "period stops cs nv")
def _(ctx):
    best_selection(ctx)
    return price(ctx, build(ctx, 3, "period stops nv"), True, elementary=True)


@family("cs_span", "span stops cs")
def _(ctx):
    return price(ctx, build(ctx, 2, "span stops"), True)


@family("cs_span3", "span stops cs", tier="thorough")
def _(ctx):
    return price(ctx, build(ctx, 3, "span stops"), True, elementary=True)


@family("cs_two", "cap cs two nv")
def _(ctx):
    inst = build(ctx, 2, "cap nv", wide=False, hi=999)
    return price(ctx, inst, True, iters=2)


@family("cs_user", "cap stops cs user")
def _(ctx):
    inst = build(ctx, 3, "cap stops")
    first = [S, 2, 1, T]
    ctx.assume(inst.route_feasible(first))
    return price(ctx, inst, True, elementary=True, initial_routes=[first, [S, 3, T]])


# ------------------------------------------------- the real stop bound (knapsack)
@family("knap_cs", "stops knap cs")
def _(ctx):
    inst = build(ctx, 3, "cap stops", hi=2)
    ctx.policy.knapsack_stub = False
    return price(ctx, inst, True, elementary=True)


@family("knap_lp", "stops knap lp")
def _(ctx):
    inst = build(ctx, 3, "cap stops", hi=2)
    ctx.policy.knapsack_stub = False
    one_dual(ctx)
    return price(ctx, inst, False)


@family("knap_ini", "stops knap ini")
def _(ctx):
    inst = build(ctx, 3, "cap stops", hi=2)
    ctx.policy.knapsack_stub = False
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("knap_sdc", "stops sdc knap cs")
def _(ctx):
    inst = build(ctx, 2, "sdc stops", hi=2)
    ctx.policy.knapsack_stub = False
    one_dual(ctx)
    return price(ctx, inst, True)


@family("period_mix", "period mixed nv cap fix")
def _(ctx):
    inst = build(ctx, 2, "cap period nv fix", types=2, wide=10**6)
    best_selection(ctx)
    no_columns(ctx)
    return go(ctx, inst)


@family("period_walk", "period cs costs")
def _(ctx):
    """walks through a customer twice are offered"""
    inst = build(ctx, 2, "stops period", types=1, freq={1: 2, 2: ctx.pick("f2", [1, 2])})
    inst.args["num_stops"] = 3
    best_selection(ctx)
    ctx.policy.duals = lambda p, n, c: 20 if c.sense > 0 else 0
    ctx.policy.cspy_filter = lambda p: len(p) > 3
    return price(ctx, inst, True, elementary=False)


@family("period_three", "period nv cs")
def _(ctx):
    """three days; frequencies up to three"""
    inst = build(ctx, 2, "nv period", types=1, freq={1: 3, 2: ctx.pick("f2", [1, 2, 3])})
    inst.args["periodic"] = 3
    best_selection(ctx)
    ctx.policy.duals = lambda p, n, c: 20 if c.sense > 0 else 0
    ctx.policy.cspy_filter = lambda p: len(p) > 3
    return price(ctx, inst, True, elementary=True)


@family("gr_mixcap", "cap mixed greedy fix")
def _(ctx):
    inst = build(ctx, 2, "cap fix", types=2)
    one_dual(ctx)
    ctx.policy.cspy_filter = lambda p: False
    ctx.policy.choice_budget = 3
    return price(ctx, inst, True, greedy=True)


@family("period_two", "period stops nv")
def _(ctx):
    inst = build(ctx, 2, "stops period nv", types=1, freq={1: 2, 2: 2})
    best_selection(ctx)
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


# ---------------------------------------------------------------- greedy pricing
@family("gr_cap", "cap greedy")
def _(ctx):
    inst = build(ctx, 3, "cap")
    ctx.policy.cspy_filter = lambda p: False
    one_dual(ctx)
    return price(ctx, inst, True, greedy=True)


@family("gr_dur", "dur stops greedy times")
def _(ctx):
    inst = build(ctx, 2, "dur stops", symt=True)
    ctx.policy.cspy_filter = lambda p: False
    return price(ctx, inst, True, greedy=True)


@family("gr_stops", "stops mixed greedy fix")
def _(ctx):
    inst = build(ctx, 2, "stops fix", types=2)
    ctx.policy.cspy_filter = lambda p: False
    ctx.policy.choice_budget = 2
    one_dual(ctx)
    return price(ctx, inst, True, greedy=True)


@family("gr_big", "cap greedy", tier="thorough")
def _(ctx):
    inst = build(ctx, 3, "cap")
    ctx.policy.cspy_filter = lambda p: False
    return price(ctx, inst, True, greedy=True)


# ---------------------------------------------------------------- strategies
def strategy(name, cspy, feats="cap", n=3, **kw):
    def f(ctx):
        inst = build(ctx, n, feats)
        one_dual(ctx)
        # of the walks found by cspy, those through customer 1 first
        ctx.policy.cspy_filter = lambda p: p[1] == 1 and len(p) > 3
        if cspy:
            kw.setdefault("elementary", True)
        return price(ctx, inst, cspy, pricing_strategy=name, **kw)

    return f


for _s in ("BestEdges1", "BestEdges2", "BestPaths"):
    family("st_%s_cs" % _s, "cap strategy cs")(strategy(_s, True, n=2))
    family("st_%s_lp" % _s, "stops strategy lp")(strategy(_s, False, "stops", n=2))
    family("st_%s_cs3" % _s, "cap strategy cs", tier="thorough")(strategy(_s, True))
    family("st_%s_lp3" % _s, "stops strategy lp", tier="thorough")(strategy(_s, False, "stops"))


def hyper(cspy, feats, budget=3, fixed=True, iters=2):
    def f(ctx):
        inst = build(ctx, 2, feats)
        if fixed:
            ctx.policy.duals = lambda p, n, c: 20 if c.sense > 0 else 0
        else:
            one_dual(ctx)
        ctx.policy.cspy_filter = lambda p: p[1] == 1 and len(p) > 3
        ctx.policy.choice_budget = budget
        kw = dict(elementary=True) if cspy else {}
        return price(ctx, inst, cspy, pricing_strategy="Hyper", iters=iters, **kw)

    return f


family("st_Hyper_cs", "cap strategy cs")(hyper(True, "cap"))
family("st_Hyper_lp", "stops strategy lp")(hyper(False, "stops"))
family("st_Hyper_cs3", "cap strategy cs", tier="thorough")(hyper(True, "cap", 4, False))
family("st_Hyper_lp3", "stops strategy lp", tier="thorough")(hyper(False, "stops", 4, False))
family("st_Hyper_it3", "cap strategy cs", tier="thorough")(hyper(True, "cap", 3, True, 3))


# ---------------------------------------------------------------- diving
@family("dive_lp", "cap dive lp")
def _(ctx):
    inst = build(ctx, 2, "cap")
    ctx.assume(inst.route_feasible([S, 1, 2, T]))
    no_columns(ctx)
    return price(ctx, inst, False, dive=True, initial_routes=roundtrips(inst) + [[S, 1, 2, T]])


@family("dive_cs", "stops dive cs")
def _(ctx):
    inst = build(ctx, 2, "stops")
    return price(ctx, inst, True, dive=True)


# ---------------------------------------------------------------- preassignments
@family("lock_one", "cap lock nv")
def _(ctx):
    inst = build(ctx, 3, "cap nv")
    lock = [S, 2, 1, T]
    ctx.assume(inst.route_feasible(lock))
    no_columns(ctx)
    r = go(ctx, inst, preassignments=[lock], pricing_strategy="Exact")
    r.locks = [lock]
    return r


@family("lock_two", "cap lock fix mixed")
def _(ctx):
    inst = build(ctx, 3, "cap fix", types=2)
    locks = [[S, 1, T], [S, 3, T]]
    no_columns(ctx)
    r = go(ctx, inst, preassignments=locks)
    r.locks = locks
    return r


@family("lock_all", "cap dur lock drop fix")
def _(ctx):
    inst = build(ctx, 3, "cap dur drop fix")
    locks = [[S, 1, T], [S, 3, 2, T]]
    ctx.assume(inst.route_feasible(locks[1]))
    r = go(ctx, inst, preassignments=locks)
    r.locks = locks
    return r


@family("lock_cw", "cap stops lock fix cw")
def _(ctx):
    inst = build(ctx, 4, "cap stops fix")
    lock = [S, 4, T]
    r = go(ctx, inst, preassignments=[lock], heuristic_only=True)
    r.locks = [lock]
    return r


@family("lock_price", "cap stops lock cs")
def _(ctx):
    inst = build(ctx, 3, "cap stops")
    lock = [S, 2, T]
    r = go(ctx, inst, cspy=True, max_iter=1, pricing_strategy="Exact", elementary=True,
           preassignments=[lock], initial_routes=[[S, 1, T], [S, 3, T]])
    r.locks = [lock]
    return r


# ---------------------------------------------------------------- solving again
@family("again_cap", "cap stops again nv")
def _(ctx):
    inst = build(ctx, 3, "cap stops nv")
    no_columns(ctx)
    prob = inst.problem()
    first = ctx.call(prob.solve, pricing_strategy="Exact", preassignments=[[S, 1, T]])
    if not first.ok:
        ctx.skip("first solve: %s" % first.exc)
    out = ctx.call(prob.solve, pricing_strategy="Exact", cspy=False)
    return Run(inst, prob, out)


@family("again_dur", "dur fix again")
def _(ctx):
    inst = build(ctx, 3, "dur fix")
    no_columns(ctx)
    prob = inst.problem()
    first = ctx.call(prob.solve, heuristic_only=True)
    if not first.ok:
        ctx.skip("first solve: %s" % first.exc)
    out = ctx.call(prob.solve, heuristic_only=True)
    return Run(inst, prob, out)


@family("again_tw", "tw cap again")
def _(ctx):
    inst = build(ctx, 2, "tw cap")
    prob = inst.problem()
    ini = roundtrips(inst)
    kw = dict(pricing_strategy="Exact", max_iter=1, initial_routes=ini)
    first = ctx.call(prob.solve, cspy=False, **kw)
    if not first.ok:
        ctx.skip("first solve: %s" % first.exc)
    out = ctx.call(prob.solve, cspy=False, **kw)
    return Run(inst, prob, out)
