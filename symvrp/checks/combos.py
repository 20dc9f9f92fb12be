"""Combinations of features, options and pricing methods.

For every main feature (its data symbolic) a covering array over the other
features (their data concrete and not binding), the pricing methods and the
strategies: every pair that is possible together occurs in some family.
"""
import itertools

from .common import (FAMS, S, T, best_selection, build, family, go, lab, no_columns, one_dual, price, roundtrips)

STRATS = ["Exact", "BestEdges1", "BestEdges2", "BestPaths", "Hyper"]
OTHERS = ["cap", "dur", "stops", "tw", "sdc", "drop", "nv", "fix", "mixed", "mixed3", "span", "period", "lock", "partial", "dive",
          "labels", "iter2"]


def lite(inst, feats):
    """concrete data for features that are only there to be combined"""
    a, C, k = inst.args, inst.customers, inst.types
    lst = lambda xs: xs[:k] if k > 1 else xs[0]
    if ("cap" in feats or "sdc" in feats) and "load_capacity" not in a:
        inst.demand.update({v: i + 1 for i, v in enumerate(C)})
        # half of the time the first type cannot carry every customer
        a["load_capacity"] = lst([1 if k > 1 and C[0] == 1 and "sdc" not in feats else 20, 25, 30])
    if "sdc" in feats and not a.get("distribution_collection"):
        a["distribution_collection"] = True
        inst.collect.update({v: 2 for v in C})
    if ("dur" in feats or "tw" in feats) and not inst.with_time:
        inst.with_time = True
        inst.service.update({v: 1 for v in C})
    if "dur" in feats and "duration" not in a:
        a["duration"] = 30000
    if "tw" in feats and not a.get("time_windows"):
        a["time_windows"] = True
        inst.lower.update({v: 2 * i for i, v in enumerate(C)})
        inst.upper.update({v: 20000 for v in C})
        inst.lower[S], inst.upper[S] = 1, 30000
        inst.lower[T], inst.upper[T] = 0, 30000
    if "stops" in feats and "num_stops" not in a:
        a["num_stops"] = len(C) + 1
    if "drop" in feats and "drop_penalty" not in a:
        a["drop_penalty"] = 15
    if "nv" in feats and "num_vehicles" not in a:
        a["num_vehicles"] = lst([len(C)] * 3) if "all" not in feats else [1] * k if k > 1 else len(C)
    if "all" in feats:
        a["use_all_vehicles"] = True
    if "fix" in feats and "fixed_cost" not in a:
        a["fixed_cost"] = lst([6, 11, 16])
    if "span" in feats:
        a["minimize_global_span"] = True
    if "period" in feats and "periodic" not in a:
        a["periodic"] = 2
        inst.frequency[C[0]] = 2


def bad(engine, strat, on):
    """combinations that are not supported, or where nothing is combined"""
    if "mixed3" in on:
        if "mixed" in on or engine == "gr" or strat == "BestPaths" or "dive" in on or strat != "Exact" and "lock" in on:
            return True
        on = on | {"mixed"}
    if engine in ("ini", "gr", "heur") and strat != "Exact":
        return True
    if engine == "gr" and on & {"tw", "sdc", "span", "pd"}:
        return True
    if engine == "heur" and on & {"tw", "sdc", "pd", "mixed", "period", "dive", "iter2", "drop", "span", "nv"}:
        return True
    if engine == "ini" and on & {"iter2"}:
        return True
    if "pd" in on and (engine not in ("lp", "ini") or strat != "Exact" or on & {"cap", "sdc", "period", "lock", "partial"} and "pmore" not in on):
        return True
    if "period" in on and ("drop" in on or on & {"lock", "partial", "dive"} and "pmore" not in on or "span" in on and "pspan" not in on):
        return True
    if "all" in on and (on & {"mixed3"} or "period" in on and "pmore" not in on):
        return True
    if "partial" in on and "span" in on:
        return True
    if "span" in on and (strat != "Exact" or "iter2" in on):
        return True
    if strat != "Exact" and on & {"iter2", "dive"}:
        return True
    if "iter2" in on and (engine in ("gr", "cs") or on & {"dive", "lock", "mixed", "nv"}):
        return True
    if "dive" in on and ("lock" in on or engine == "gr" or engine != "ini" and on & {"mixed", "span", "partial"}):
        return True
    if {"dive", "span", "mixed"} <= on or {"lock", "span", "mixed"} <= on or {"period", "iter2"} <= on:
        return True
    if strat == "Hyper" and on & {"lock", "mixed", "nv", "tw", "dur", "sdc"}:
        return True
    if strat == "Hyper" and engine != "csel":
        return True
    if engine == "gr" and on & {"period"} and on & {"mixed"}:
        return True
    if engine == "lp" and "mixed" in on and len(on & {"tw", "sdc", "dur", "cap"}) > 1:
        return True
    return False


def covering(engines, strats, others, fixed, rows, seed=12345):
    """greedy pairwise covering array; deterministic"""
    lcg = [seed]

    def rnd(n):
        lcg[0] = (1103515245 * lcg[0] + 12345) % 2**31
        return (lcg[0] >> 8) % n

    def pairs(row):
        e, s, on = row
        items = [("e", e), ("s", s)] + [(o, o in on) for o in others]
        return set(itertools.combinations(items, 2))

    done, out = set(), []
    for _ in range(rows):
        best = None
        for _ in range(160):
            e, s = engines[rnd(len(engines))], strats[rnd(len(strats))]
            if e in ("ini", "gr", "heur"):
                s = "Exact"
            on = set(o for o in others if rnd(3) == 0)
            if bad(e, s, on | fixed):
                continue
            new = pairs((e, s, on)) - done
            if best is None or len(new) > best[0]:
                best = (len(new), (e, s, on))
        if best is None or best[0] == 0:
            break
        out.append(best[1])
        done |= pairs(best[1])
    return out


def combo(n, main, engine, strat, on, sym="", freq=None, symc=False, junk=False, solver="cbc", **bk):
    def f(ctx):
        types = 3 if "mixed3" in on else 2 if "mixed" in on or "mixed" in main else 1
        size = n + (1 if "lock" in on else 0)
        if types > 1 and not ({"cap", "sdc", "pd", "fix", "nv"} & (on | set(main.split()))):
            on_ = on | {"fix"}
        else:
            on_ = on
        inst = build(ctx, size, sym, types=types, label=lab if "labels" in on else None, symc=symc, **bk)
        lite(inst, on_ | set(main.split()))
        inst.junk = junk
        return run(ctx, inst, engine, strat, on_, **({} if engine == "heur" else dict(solver=solver)))

    return f


def run(ctx, inst, engine, strat, on, **extra):
    a = inst.args
    C = inst.customers
    kw = dict(extra)
    locks = []
    if "lock" in on:
        locks.append([S, C[-1], T])
    if "partial" in on:
        locks.append([C[0], C[1]])
    if locks:
        kw["preassignments"] = locks
    if "dive" in on:
        kw["dive"] = True
    if "period" in on:
        best_selection(ctx)
    if engine == "heur":
        r = go(ctx, inst, heuristic_only=True, **kw)
        r.locks = [l for l in locks if l[0] == S]
        return r
    gone = {v for l in locks if l[0] == S for v in l}
    ini = [t for t in roundtrips(inst) if not set(t[1:-1]) & gone]
    if engine == "ini":
        no_columns(ctx)
        r = go(ctx, inst, pricing_strategy="Exact", cspy=not a.get("pickup_delivery"), **kw)
    else:
        iters = 2 if "iter2" in on or strat == "Hyper" else 1
        first = C[0]
        if strat == "Exact":
            if a.get("minimize_global_span"):
                ctx.policy.duals = lambda p, n, c: -1 if c.sense <= 0 else 20
            else:
                one_dual(ctx)
        else:
            ctx.policy.duals = lambda p, n, c: 20 if c.sense > 0 else 0
        ctx.policy.cspy_filter = (lambda p: False) if engine == "gr" else (
            (lambda p: len(p) > 3 and p[1] == first) if strat == "Hyper" else (lambda p: len(p) > 3))
        ctx.policy.choice_budget = 2
        if engine in ("cs", "csel"):
            kw["elementary"] = engine == "csel"
        if engine == "gr":
            kw["greedy"] = True
        r = price(ctx, inst, engine != "lp", iters=iters, pricing_strategy=strat, initial_routes=ini, **kw)
    r.locks = [l for l in locks if l[0] == S]
    return r


LATER = []
SOLVER = ["cbc", "cbc", "cplex", "cbc", "gurobi"]


def register(main, n, fixed, sym, rows, engines=("lp", "cs", "csel", "gr", "ini"), strats=STRATS, without="", tier="quick",
             tag=None, seed=12345, **bk):
    LATER.append((main, n, fixed, sym, rows, dict(engines=engines, strats=strats, without=without, tag=tag, **bk)))
    fixed = set(fixed.split())
    if main != "any":
        without += " dive"
    others = [o for o in OTHERS if o not in fixed and o not in without.split()]
    for i, (e, s, on) in enumerate(covering(list(engines), list(strats), others, fixed, rows, seed)):
        # every other row: attributes of features that are switched off
        junk = i % 2 == 1
        solver = SOLVER[i % 5]
        name = "_".join(["mx", main, e] + ([s] if s != "Exact" else []) + sorted(on) + ["junk"] * junk + [solver] * (solver != "cbc"))
        if name in FAMS:
            continue
        family(name, tag or "mx_" + main, tier=tier)(combo(n, " ".join(fixed), e, s, on | fixed, sym, junk=junk and ("reports" if main in ("dload", "sload") else True), solver=solver, **bk))


ROWS = 14
register("any", 2, "", "", 30)
register("cap", 2, "cap", "cap", ROWS, without="sdc")
register("sdc", 2, "sdc", "sdc", 12, engines=("lp", "cs", "ini"), without="cap")
register("pd", 4, "pd", "pd", 6, engines=("lp", "ini"), strats=["Exact"], without="cap sdc period lock partial span iter2 labels")
register("stops", 2, "stops", "stops", ROWS)
register("dur", 2, "dur", "dur", ROWS)
register("tw", 2, "tw", "tw", 12, engines=("lp", "cs", "csel"), strats=["Exact"], without="lock iter2 span")
register("cost", 2, "fix", "fix", 16, strats=["Exact"])
register("cost", 2, "fix", "", 10, strats=["BestEdges1", "BestEdges2", "BestPaths"])
register("nv", 2, "nv", "nv", ROWS, without="period")
register("period", 2, "period", "period", 12, engines=("lp", "cs", "csel", "ini"), without="drop lock partial span dive")
register("lock", 2, "lock cap", "cap", 12, engines=("lp", "csel", "gr", "ini", "heur"), without="period sdc")
register("dload", 2, "cap dur", "cap dur", 8, engines=("csel", "ini"), without="sdc iter2")
register("tload", 2, "cap tw", "cap tw", 6, engines=("lp", "csel", "ini"), strats=["Exact"], without="sdc iter2")
register("sload", 2, "sdc", "sdc", 8, engines=("lp", "csel", "ini"), strats=["Exact"], without="cap iter2", tag="mx_dload")
register("nvall", 2, "nv all", "nv", 8, without="period mixed mixed3", tag="mx_nv")
register("costall", 2, "fix nv all", "fix", 6, strats=["Exact"], without="period mixed mixed3", tag="mx_cost")
register("anyall", 2, "nv all", "", 8, engines=("lp", "cs", "csel", "gr"), without="period mixed mixed3 dive", tag="mx_any")
# two types, one vehicle each: the first cannot carry the second customer
for _e in ("ini", "lp", "csel"):
    family("mx_allmix_" + _e, "mx_cost mx_nv mx_any")(
        combo(2, "fix nv all cap mixed", _e, "Exact", {"fix", "nv", "all", "cap", "mixed"}, "fix"))
register("pspan", 2, "period span pspan", "period", 8, engines=("lp", "cs", "csel", "ini"), strats=["Exact"],
         without="drop lock partial dive", tag="mx_period")
register("costpspan", 2, "period span pspan fix", "fix", 4, engines=("lp", "csel", "ini"), strats=["Exact"],
         without="drop lock partial dive", tag="mx_cost")
# periodic problems with preassigned routes and edges, diving, the whole fleet
for _f in ("lock", "partial", "nv all"):
    register("p" + _f.split()[-1], 2, "period pmore " + _f, "period", 5, engines=("lp", "cs", "csel", "ini"), strats=["Exact"],
             without="drop dive", tag="mx_period mx_lock" if _f == "lock" else "mx_period")
for _e, _on in (("ini", set()), ("ini", {"mixed", "fix"}), ("ini", {"cap", "stops"}), ("cs", {"nv"})):
    family("_".join(["mx_pdive", _e] + sorted(_on)), "mx_period mx_any")(
        combo(2, "period dive", _e, "Exact", _on | {"period", "dive"}, "period"))


# pickup and delivery with periods, preassigned routes and edges, diving
def requests_with(feature, engine, types):
    def f(ctx):
        inst = build(ctx, 4, "pd", types=types)
        kw, ini, locks = {}, roundtrips(inst), []
        if feature == "period":
            inst.args["periodic"] = 2
            inst.frequency.update({1: 2, 2: 2})
            best_selection(ctx)
        elif feature == "lock":
            locks = [[S, 3, 4, T]]
            kw["preassignments"] = locks
            ini = ini[:1]
        elif feature == "partial":
            kw["preassignments"] = [[1, 2]]
        elif feature == "dive":
            kw["dive"] = True
        if engine == "ini":
            no_columns(ctx)
            r = go(ctx, inst, pricing_strategy="Exact", cspy=False, **kw)
        else:
            one_dual(ctx)
            r = price(ctx, inst, False, initial_routes=ini, **kw)
        r.locks = locks
        return r

    return f


for _f in ("period", "lock", "partial", "dive"):
    for _e, _t in (("ini", 2), ("lp", 1), ("lp", 2)):
        if _f == "dive" and _e == "lp":
            continue
        family("rq_%s_%s%d" % (_f, _e, _t), "mx_pd mx_dload" + {"period": " mx_period", "lock": " mx_lock"}.get(_f, ""))(
            requests_with(_f, _e, _t))

# the thorough tier: further arrays
_quick = list(LATER)
for _seed in (99, 2024):
    for _m, _n, _f, _s, _rows, _kw in _quick:
        register(_m, _n, _f, _s, _rows, tier="thorough", seed=_seed, **_kw)
