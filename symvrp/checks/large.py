"""Larger networks with less freedom: eleven customers, a sparse network, and a
solver that is offered few choices. Data stay symbolic. What only shows with
many routes, long routes, names of two digits or many vehicle types is decided here.
"""
from .common import S, T, best_selection, build, family, go, lab, no_columns, price, roundtrips

N = 11


def chain(n=N, step=1, label=None):
    """links that are missing when customers are only linked to the next ones"""
    f = label or (lambda i: i)
    return [(f(i), f(j)) for i in range(1, n + 1) for j in range(1, n + 1) if i != j and not 0 < j - i <= step]


def few(ctx, inst, lengths):
    """cspy offers walks along the chain from its start"""
    first = inst.customers[0]
    ctx.policy.cspy_filter = lambda p: p[1] == first and len(p) - 2 in lengths
    ctx.policy.duals = lambda p, n, c: 60 if c.sense > 0 else 0


def amounts(ctx, inst, lo, hi):
    """given demands, symbolic capacity"""
    for i, v in enumerate(inst.customers):
        inst.demand[v] = 1 + 3 * i % 5
    inst.args["load_capacity"] = ctx.int("Q", lo, hi)


def windows(ctx, inst, free):
    """given windows except for the customers in `free`; the time to serve them is symbolic too"""
    a = inst.args
    a["time_windows"] = True
    inst.with_time = True
    inst.lower[S], inst.upper[S] = 5, 2000
    inst.lower[T], inst.upper[T] = 0, 2000
    for i, v in enumerate(inst.customers):
        inst.service[v] = 1 + i % 3
        inst.lower[v], inst.upper[v] = 10 * i, 30 * i + 200
    for v in free:
        inst.lower[v] = ctx.int("a_%s" % v, 0, 500)
        inst.upper[v] = ctx.int("b_%s" % v, 0, 800)
        inst.service[v] = ctx.int("s_%s" % v, 0, 50)
        ctx.assume(inst.lower[v] <= inst.upper[v])
        ctx.assume(inst.windows_ok([S, v, T]))


@family("big_ini", "large_ini")
def _(ctx):
    """round trips only"""
    inst = build(ctx, N, "fix", label=lab, missing=chain(label=lab))
    amounts(ctx, inst, 5, 60)
    windows(ctx, inst, inst.customers[9:])
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("big_cw", "large_cw")
def _(ctx):
    inst = build(ctx, N, "", missing=chain())
    amounts(ctx, inst, 5, 60)
    return go(ctx, inst, heuristic_only=True)


@family("big_cwdur", "large_dur")
def _(ctx):
    inst = build(ctx, N, "dur", missing=chain())
    for i, v in enumerate(inst.customers):
        inst.service[v] = 1 + i % 3
    inst.args["duration"] = ctx.int("L", 60, 400)
    return go(ctx, inst, heuristic_only=True)


@family("big_cs", "large_cs")
def _(ctx):
    inst = build(ctx, N, "", missing=chain())
    amounts(ctx, inst, 5, 60)
    inst.args["num_stops"] = ctx.int("K", 1, N)
    few(ctx, inst, (2, 5, 10, 11))
    return price(ctx, inst, True, elementary=True)


@family("big_csdur", "large_dur large_csdur")
def _(ctx):
    inst = build(ctx, N, "dur", missing=chain())
    for i, v in enumerate(inst.customers):
        inst.service[v] = 1 + i % 3
    inst.args["duration"] = ctx.int("L", 60, 400)
    inst.args["num_stops"] = N
    few(ctx, inst, (2, 5, 10, 11))
    return price(ctx, inst, True, elementary=True)


@family("big_tw", "large_tw")
def _(ctx):
    inst = build(ctx, N, "", missing=chain())
    windows(ctx, inst, [4, 11])
    inst.args["num_stops"] = N
    few(ctx, inst, (5, 11))
    return price(ctx, inst, True, elementary=True)


@family("big_lp", "large_lp")
def _(ctx):
    inst = build(ctx, 6, "", missing=chain(6))
    amounts(ctx, inst, 5, 30)
    ctx.policy.duals = lambda p, n, c: 60 if c.sense > 0 else 0
    return price(ctx, inst, False)


@family("big_sdc", "large_sdc")
def _(ctx):
    inst = build(ctx, 7, "", missing=chain(7))
    amounts(ctx, inst, 5, 30)
    inst.args["distribution_collection"] = True
    for i, v in enumerate(inst.customers):
        inst.collect[v] = ctx.int("q_%s" % v, 0, 5) if i in (3, 6) else 2 * i % 5
    few(ctx, inst, (4, 7))
    return price(ctx, inst, True, elementary=True)


@family("big_types", "large_types")
def _(ctx):
    """five vehicle types"""
    inst = build(ctx, 2, "cap fix nv", types=5, missing=chain(2), wide=False, hi=999)
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact")


@family("big_span", "large_span")
def _(ctx):
    inst = build(ctx, N, "span fix", missing=chain())
    no_columns(ctx)
    return price(ctx, inst, True, elementary=True)


@family("big_period", "large_period")
def _(ctx):
    """five routes over three days"""
    inst = build(ctx, N, "nv period", freq={1: 2}, missing=chain())
    inst.args["periodic"] = 3
    inst.args["num_vehicles"] = ctx.int("V", 2, 6)
    best_selection(ctx)
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact", initial_routes=[[S, 1, T], [S, 2, 3, 4, T], [S, 5, 6, 7, T], [S, 8, 9, 10, 11, T]])


@family("big_drop", "large_drop")
def _(ctx):
    inst = build(ctx, 6, "drop nv", missing=chain(6))
    best_selection(ctx)
    no_columns(ctx)
    return go(ctx, inst, pricing_strategy="Exact", initial_routes=roundtrips(inst))


@family("big_lock", "large_lock")
def _(ctx):
    inst = build(ctx, N, "", missing=chain(step=2))
    amounts(ctx, inst, 5, 60)
    inst.demand[5] = ctx.int("d_5", 0, 60)
    inst.args["num_vehicles"] = ctx.int("V", 8, 14)
    locks = [[S, 1, 2, T], [S, 3, T], [S, 4, 5, 6, T], [S, 7, T]]
    for l in locks:
        ctx.assume(sum(inst.demand[v] for v in l[1:-1]) <= inst.args["load_capacity"])
    no_columns(ctx)
    r = go(ctx, inst, pricing_strategy="Exact", preassignments=[list(l) for l in locks],
           initial_routes=[[S, v, T] for v in (8, 9, 10, 11)])
    r.locks = locks
    return r


@family("big_dive", "large_dive")
def _(ctx):
    inst = build(ctx, 6, "", missing=chain(6))
    inst.args["num_stops"] = ctx.int("K", 4, 6)
    few(ctx, inst, (6,))
    ini = [[S, 1, 2, T], [S, 3, 4, T], [S, 5, 6, T]]
    return price(ctx, inst, True, elementary=True, dive=True, initial_routes=ini)
