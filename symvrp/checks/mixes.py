"""Covering arrays for the properties about the column generation itself:
every pair of (pricing method, strategy, number of vehicle types, feature with
symbolic data, other features, options) that is possible occurs in a scenario.
"""
import itertools

from .. import env
from .combos import SOLVER, lite
from ..sym import And, Implies, Ite, smax
from .common import S, T, best_selection, build, go, lab, no_columns, one_dual, roundtrips
from .props import columns, complete, fixed_duals, history, limits, selections, special


def pairwise(dims, valid, rows, seed=7):
    """greedy pairwise covering array over {name: values}; deterministic"""
    lcg = [seed]

    def rnd(n):
        lcg[0] = (1103515245 * lcg[0] + 12345) % 2**31
        return (lcg[0] >> 8) % n

    done, out = set(), []
    for _ in range(rows):
        best = None
        for _ in range(300):
            row = {k: v[rnd(len(v))] for k, v in dims.items()}
            if not valid(row):
                continue
            new = set(itertools.combinations(sorted((k, str(x)) for k, x in row.items()), 2)) - done
            if best is None or len(new) > best[0]:
                best = (len(new), row, new)
        if best is None or not best[0]:
            break
        done |= best[2]
        out.append(best[1])
    return out


FLAG = [False, False, True]
FEATS = ["cap", "dur", "stops", "tw", "sdc", "fix", "nv", "drop"]


def name_of(prefix, row):
    bits = [str(v) for k, v in row.items() if not isinstance(v, bool) and v not in ("Exact", 1, "cbc")]
    return "_".join([prefix] + bits + [k for k, v in row.items() if v is True])


def on_of(row):
    on = {f for f in FEATS + ["span", "period"] if row.get(f)} | {row.get("main")}
    if row["types"] > 1 and not on & {"cap", "sdc", "fix", "nv"}:
        on.add("fix")
    return on


def duals_by_row(ctx):
    """one symbol for the customers, different numbers for the vehicle types"""
    seen = {}

    def dual(prob, name, c):
        k = len(ctx.lp_calls())
        if c.sense <= 0:
            seen.setdefault((k, "fleet"), []).append(name)
            return -1 - 2 * len(seen[k, "fleet"])
        if k not in seen:
            seen[k] = ctx.free_dual(k)
        return seen[k]

    ctx.policy.duals = dual


def base_valid(r):
    if r.get(r["main"]):
        return False
    if r["main"] == "cap" and r["sdc"] or r["main"] == "sdc" and r["cap"]:
        return False
    if r["engine"] == "gr" and (r["tw"] or r["sdc"] or r["main"] in ("tw", "sdc")):
        return False
    return True


def dims(engines, strats, mains, **more):
    d = dict(main=mains, engine=engines, strat=strats, types=[1, 2, 3])
    d.update({f: FLAG for f in FEATS})
    d["labels"] = FLAG
    d.update(more)
    return d


def register(pid, dims_, valid, rows, make):
    seen = set()
    for seed, tier in ((7, "quick"), (99, "thorough"), (2024, "thorough")):
        for i, r in enumerate(pairwise(dims_, valid, rows, seed)):
            r["junk"] = i % 2 == 1
            r["solver"] = SOLVER[i % 5]
            name = name_of("mx", dict(r, engine=1, main=1) if pid == "C18" else r)
            if name not in seen:
                seen.add(name)
                special(pid, name, tier)(make(r))


# ------------------------------------------------------------------ C15
def last_cheapest(inst):
    """the last vehicle type is the cheapest (by default it is the first)"""
    for e in inst.cost:
        inst.cost[e].reverse()
    if isinstance(inst.args.get("fixed_cost"), list):
        inst.args["fixed_cost"].reverse()


def c15(row):
    def setup(ctx, inst):
        lite(inst, on_of(row))
        inst.junk = row["junk"]
        if row["last"] and row["types"] > 1:
            last_cheapest(inst)
        duals_by_row(ctx)

    kw = {} if row["engine"] == "lp" else dict(elementary=row["engine"] == "csel")
    kw["solver"] = row["solver"]
    if row["strat"] != "Exact":
        kw["run_exact"] = 50
    return complete(row["main"], row["engine"] != "lp", types=row["types"], strategy=row["strat"], setup=setup,
                    label=lab if row["labels"] else None, **kw)


def valid15(r):
    if not base_valid(r) or r["drop"]:
        return False
    if r["strat"] != "Exact" and (r["types"] > 1 or r["engine"] == "cs" or r["main"] not in ("cap", "stops") or r["sdc"]
                                  or r["nv"] or r["engine"] == "lp" and (r["dur"] or r["tw"])):
        return False
    if r["engine"] != "lp" and not {"cap", "stops", "sdc"} & on_of(r):
        return False  # see mono_cs
    if r["types"] == 3 and not r["last"]:
        return False
    if r["types"] > 2 and (r["engine"] == "cs" or r["main"] not in ("stops", "dur") or r["tw"]):
        return False
    return True


D15 = dims(["lp", "cs", "csel"], ["Exact", "Exact", "BestEdges1", "BestEdges2", "BestPaths", "Hyper"],
           ["cap", "stops", "dur", "tw", "sdc"], last=[True, False])
register("C15", D15, valid15, 16, c15)


# ------------------------------------------------------------------ C19
def c19(row):
    def setup(ctx, inst):
        lite(inst, on_of(row))
        inst.junk = row["junk"]
        duals_by_row(ctx)
        if row["engine"] == "gr":
            ctx.policy.cspy_filter = lambda p: False
        else:
            ctx.policy.cspy_filter = lambda p: p[1] == inst.label(1) and len(p) > 3

    kw = {} if row["engine"] == "lp" else dict(elementary=row["engine"] == "csel")
    kw["solver"] = row["solver"]
    return columns(row["main"], row["engine"] != "lp", types=row["types"], strategy=row["strat"], setup=setup,
                   label=lab if row["labels"] else None, greedy=row["engine"] == "gr",
                   wide=not (row["strat"] == "BestPaths" and row["main"] == "fix"), **kw)


def valid19(r):
    if not base_valid(r):
        return False
    if r["strat"] != "Exact" and (r["types"] > 1 or r["engine"] in ("cs", "gr")):
        return False
    if r["types"] == 3 and r["engine"] in ("gr", "cs"):
        return False
    return True


D19 = dims(["lp", "cs", "csel", "gr"], ["Exact", "Exact", "BestEdges1", "BestEdges2", "BestPaths"],
           ["cap", "stops", "dur", "tw", "sdc", "fix"])
register("C19", D19, valid19, 16, c19)


# ------------------------------------------------------------------ C16
def c16(row):
    def setup(ctx, inst):
        lite(inst, on_of(row))
        inst.junk = row["junk"]
        fixed_duals(ctx, inst)
        if row["engine"] == "gr":
            ctx.policy.cspy_filter = lambda p: False

    kw = {} if row["engine"] == "lp" else dict(elementary=row["engine"] != "cs")
    kw["solver"] = row["solver"]
    if row["engine"] == "gr":
        kw["greedy"] = True
    return limits("", row["engine"] != "lp", types=row["types"], strategy=row["strat"], setup=setup, iters=1,
                  label=lab if row["labels"] else None, **kw)


def valid16(r):
    if not base_valid(r):
        return False
    if r["strat"] != "Exact" and (r["types"] > 1 or r["engine"] in ("cs", "gr")):
        return False
    return True


D16 = dims(["lp", "cs", "csel", "gr"], ["Exact", "Exact", "BestEdges1", "BestEdges2", "BestPaths", "Hyper"], ["none"],
           span=FLAG)
register("C16", D16, valid16, 14, c16)


# ------------------------------------------------------------------ C18
_ini = lambda inst: dict(initial_routes=roundtrips(inst), pricing_strategy="Exact", max_iter=1)
SOLVES = {
    "cs": lambda i: dict(_ini(i), elementary=False),
    "csel": lambda i: dict(_ini(i), elementary=True),
    "lp": lambda i: dict(_ini(i), cspy=False),
    "heur": lambda i: dict(heuristic_only=True),
    "auto": lambda i: dict(pricing_strategy="Exact", max_iter=1, elementary=True),
    "lock": lambda i: dict(preassignments=[[S, i.label(1), T]], pricing_strategy="Exact", max_iter=1, elementary=True),
    "part": lambda i: dict(_ini(i), preassignments=[[i.label(1), i.label(2)]], elementary=True),
    "dive": lambda i: dict(_ini(i), dive=True, elementary=True),
    "edges1": lambda i: dict(_ini(i), pricing_strategy="BestEdges1", elementary=True),
    "edges2": lambda i: dict(_ini(i), pricing_strategy="BestEdges2", cspy=False),
    "paths": lambda i: dict(_ini(i), pricing_strategy="BestPaths", elementary=True),
    "hyper": lambda i: dict(_ini(i), pricing_strategy="Hyper", elementary=True),
    "timed": lambda i: dict(_ini(i), elementary=True, time_limit=10),
    "wrong": lambda i: dict(pricing_strategy="Wrong"),
}


def ticking(ctx):
    """a clock that advances by the same amount whenever it is read"""
    ctx.policy.clock = lambda k: 2.0 * k


def c18(row):
    def setup(ctx, inst):
        lite(inst, on_of(row))
        inst.junk = row["junk"]
        ctx.policy.cspy_filter = lambda p: len(p) > 3
        if "timed" in (row["x"], row["y"]):
            ticking(ctx)

    return history("", SOLVES[row["x"]], SOLVES[row["y"]], types=row["types"], setup=setup, two=row["two"],
                   label=lab if row["labels"] else None)


def valid18(r):
    heur = "heur" in (r["x"], r["y"])
    if heur and (r["tw"] or r["sdc"] or r["types"] > 1):
        return False
    if r["types"] > 1 and ({"dive", "cs", "hyper", "edges1", "edges2", "paths"} & {r["x"], r["y"]}):
        return False
    if r["y"] == "wrong":
        return False
    xy = {r["x"], r["y"]}
    if "dive" in xy and (r["drop"] or r["nv"] or r["sdc"] or r["tw"] or xy & {"part", "edges1", "edges2", "paths", "hyper"}):
        return False
    if r["drop"] and (r["types"] > 1 or len(xy & {"edges1", "edges2", "paths", "hyper"}) > 1):
        return False
    return True


D18 = dims(["-"], ["Exact"], ["none"], x=list(SOLVES), y=list(SOLVES), two=FLAG)
register("C18", D18, valid18, 40, c18)


# ------------------------------------------------------------------ C14
def c14(row):
    """no selection of the routes the user gave and those cspy returned is cheaper"""
    def f(ctx):
        feats = {"costs": "", "fixed": "fix", "fleet": "nv", "penalty": "drop"}[row["main"]]
        types = row["types"]
        n = 3 if row["lock"] else 2
        easy = row["engine"] != "none" and (row["strat"] != "Exact" or row["span"] or row["engine"] == "cs")
        inst = build(ctx, n, feats, symc="inner" if types > 1 or row["lock"] or row["engine"] != "none" else True, types=types,
                     label=lab if row["labels"] else None, wide=not easy)
        lite(inst, on_of(row) | ({"fix"} if row["main"] == "fixed" else set()))
        if row["all"]:
            inst.args["use_all_vehicles"] = True
        inst.junk = row["junk"]
        a, C = inst.args, inst.customers
        nv = a.get("num_vehicles")
        nv = nv if isinstance(nv, list) or nv is None else [nv]
        best_selection(ctx)
        kw = dict(solver=row["solver"])
        locked = []
        if row["lock"]:
            locked = [S, C[-1], T]
            kw["preassignments"] = [locked]
        rest = [v for v in C if v not in locked]
        ini = [[S, v, T] for v in rest]
        found = []
        if row["engine"] == "none":
            ini += [[S] + rest + [T], [S] + rest[::-1] + [T]]
            no_columns(ctx)
        else:
            if easy:
                ctx.policy.duals = lambda p, n_, c: 20 if c.sense > 0 else 0
            else:
                duals_by_row(ctx)
            ctx.policy.on_cspy.append(lambda alg: found.append((alg.path, alg.total_cost)))
            ctx.policy.cspy_filter = lambda p: len(p) > 3
            kw.update(elementary=row["engine"] == "csel", max_iter=1)
        r = go(ctx, inst, pricing_strategy=row["strat"], initial_routes=[list(x) for x in ini], **kw)
        given, pool = [], [(x, None if types > 1 else 0) for x in ini]
        for i, (path, cost) in enumerate(found):
            if path is not None:
                # one pricing call per vehicle type and round
                pool.append((path, i % types))
                given.append(cost < -0.001)
        obs = [("selection", True)]
        for sel, left in selections(inst, pool):
            left = [v for v in left if v not in locked]
            if left and a.get("drop_penalty") is None or not sel:
                continue
            cs = list(given)
            costs = []
            # the type of a given route is the code's choice among those that can carry it
            for x, k in sel + (((locked, None),) if locked else ()):
                costs.append(inst.route_cost(x, k) if k is not None else
                             smax([Ite(inst.route_feasible(x, t), inst.route_cost(x, t), 0) for t in range(types)]))
            if nv is not None and types == 1:
                m = len(sel) + (1 if locked else 0)
                cs.append(m == nv[0] if a.get("use_all_vehicles") else m <= nv[0])
            elif nv is not None:
                cs += [len(sel) <= x for x in nv]
            tot = (smax(costs) if a.get("minimize_global_span") else sum(costs)) + len(left) * (a.get("drop_penalty") or 0)
            name = [x[1:-1] for x, _ in sel]
            if r.ok:
                obs.append(("the selection %s is cheaper" % name, Implies(And(*cs), r.prob.best_value <= tot)))
            else:
                obs.append(("solve raised %s although the selection %s exists" % (type(r.out.exc).__name__, name),
                            Implies(And(*cs), False)))
        return obs

    return f


def valid14(r):
    on = on_of(r)
    if {"fixed": "fix", "fleet": "nv", "penalty": "drop"}.get(r["main"]) in {k for k in r if r[k] is True}:
        return False
    if r["strat"] != "Exact" and (r["engine"] != "csel" or r["types"] > 1 or r["span"] or r["drop"] or r["main"] == "penalty"):
        return False
    if r["lock"] and (r["types"] > 1 or r["engine"] == "cs"):
        return False
    if r["all"] and (r["types"] > 1 or not (r["main"] == "fleet" or r["nv"]) or r["drop"] or r["main"] == "penalty"):
        return False
    if r["types"] > 1 and (r["main"] == "fleet" or r["span"] and r["engine"] != "none"):
        return False
    return True


D14 = dims(["none", "none", "csel", "cs"], ["Exact", "Exact", "BestEdges1", "BestEdges2", "BestPaths"],
           ["costs", "fixed", "fleet", "penalty"], span=FLAG, lock=FLAG, all=FLAG)
register("C14", D14, valid14, 24, c14)
