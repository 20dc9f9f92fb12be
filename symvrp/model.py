"""Problem instances (as the user states them) and the independent oracle.

Nothing here is derived from vrpy's code: routes are judged against the data
the scenario itself handed to the public API.
"""
import itertools

from .sym import All, And, Any, Implies, Ite, Not, Or, is_sym, smax, smin

S, T = "Source", "Sink"

# concrete, asymmetric, pairwise distinct enough base tables (indices 0..5)
_COST = [
    # to:  1   2   3   4   5   Sink
    [0, 9, 13, 11, 8, 14, 0],  # Source
    [0, 0, 4, 7, 6, 5, 10],  # 1
    [0, 3, 0, 5, 9, 8, 12],  # 2
    [0, 8, 6, 0, 4, 7, 9],  # 3
    [0, 5, 7, 3, 0, 6, 11],  # 4
    [0, 6, 9, 8, 5, 0, 13],  # 5
]
_TIME = [
    [0, 3, 5, 4, 6, 2, 0],
    [0, 0, 2, 4, 3, 5, 4],
    [0, 3, 0, 1, 4, 2, 3],
    [0, 2, 3, 0, 2, 4, 5],
    [0, 4, 1, 3, 0, 2, 2],
    [0, 1, 4, 2, 3, 0, 4],
]


def _closed(t):
    """shortest-path closure: the times satisfy the triangle inequality"""
    t = [row[:] for row in t]
    for _ in range(6):
        for i in range(6):
            for k in range(1, 6):
                for j in range(1, 7):
                    if i != j and i != k and k != j and not (i == 0 and j == 6):
                        t[i][j] = min(t[i][j], t[i][k] + t[k][j])
    return t


_TIME = _closed(_TIME)


class Inst:
    def __init__(self, n, missing=(), types=1, label=None):
        self.n = n
        self.label = label or (lambda i: i)
        self.customers = [self.label(i) for i in range(1, n + 1)]
        back = {self.label(i): i for i in range(1, n + 1)}
        self.types = types
        self.cost = {}
        self.time = {}
        self.missing = set(missing)
        big = n > 5
        idx = lambda v: 0 if v == S else ((n + 1 if big else 6) if v == T else back[v])
        for i in [S] + self.customers:
            for j in self.customers + [T]:
                if i == j or (i == S and j == T) or (i, j) in self.missing:
                    continue
                c = 20 + (7 * idx(i) + 11 * idx(j)) % 17 if big else _COST[idx(i)][idx(j)]
                self.cost[i, j] = [c + 2 * k + (k if i == S else 0) for k in range(types)]
                self.time[i, j] = 10 + (5 * idx(i) + 3 * idx(j)) % 9 if big else _TIME[idx(i)][idx(j)]
        self.demand = {}
        self.collect = {}
        self.service = {}
        self.lower = {}
        self.upper = {}
        self.frequency = {}
        self.request = {}
        self.args = {}  # constructor arguments as the user gives them
        self.with_time = False
        self.junk = False

    # ------------------------------------------------------------- build
    def graph(self):
        from networkx import DiGraph

        G = DiGraph()
        for (i, j), c in self.cost.items():
            d = {"cost": list(c) if self.args.get("mixed_fleet") else c[0]}
            if self.with_time:
                d["time"] = self.time[i, j]
            G.add_edge(i, j, **d)
        for name, tab in (
            ("demand", self.demand), ("collect", self.collect), ("service_time", self.service),
            ("lower", self.lower), ("upper", self.upper), ("frequency", self.frequency),
            ("request", self.request),
        ):
            for v, x in tab.items():
                G.nodes[v][name] = x
        if self.junk:
            self.add_junk(G)
        return G

    def add_junk(self, G):
        """attributes of features that are not asked for have no effect"""
        a = self.args
        off = {}
        if a.get("load_capacity") is None:
            off["demand"] = 7
        if not a.get("distribution_collection"):
            off["collect"] = 2000
        if not a.get("time_windows"):
            if self.junk != "reports":  # with a duration only: whether the report waits for windows is left open
                off["lower"], off["upper"] = 800, 1
            if a.get("duration") is None:
                off["service_time"] = 900
                for e in G.edges():
                    G.edges[e]["time"] = 1
        if not a.get("periodic"):
            off["frequency"] = 2
        if not a.get("pickup_delivery"):
            G.nodes[self.customers[0]]["request"] = self.customers[-1]
        for v in self.customers:
            G.nodes[v].update(off)

    def problem(self):
        from vrpy import VehicleRoutingProblem

        return VehicleRoutingProblem(self.graph(), **self.args)

    # ------------------------------------------------------------- spec data
    def d(self, v):
        return self.demand.get(v, 0) if v not in (S, T) else 0

    def q(self, v):
        return self.collect.get(v, 0)

    def s(self, v):
        return self.service.get(v, 0)

    def t(self, i, j):
        if not self.with_time:
            return 0
        return self.time.get((i, j), 0)

    def cap(self, k):
        c = self.args.get("load_capacity")
        if c is None:
            return None
        return c[k] if isinstance(c, list) else c

    def c(self, i, j, k=0):
        if (i, j) in self.cost:
            return self.cost[i, j][k]
        return 10**10  # depot link added automatically

    def fixed(self, k):
        f = self.args.get("fixed_cost") or 0
        return f[k] if isinstance(f, list) else f

    def has_edge(self, i, j):
        return (i, j) in self.cost or (i == S and j in self.customers) or (
            j == T and i in self.customers
        )

    # ------------------------------------------------------------- per route
    def edges(self, r):
        return list(zip(r[:-1], r[1:]))

    def route_cost(self, r, k=0):
        return sum(self.c(i, j, k) for i, j in self.edges(r)) + self.fixed(k)

    def load(self, r):
        return sum(self.d(v) for v in r)

    def onboard_ok(self, r, cap):
        """simultaneous distribution and collection: load on every leg"""
        cur = sum(self.d(v) for v in r)
        cs = [cur <= cap]
        for v in r[1:-1]:
            cur = cur - self.d(v) + self.q(v)
            cs.append(cur <= cap)
        return And(*cs)

    def pd_ok(self, r, cap):
        inner = r[1:-1]
        cs = []
        for p, dl in self.request.items():
            if (p in inner) != (dl in inner):
                return False
            if p in inner and inner.index(p) > inner.index(dl):
                return False
        cur = 0
        for v in inner:
            cur = cur + self.d(v)
            if cap is not None:
                cs.append(cur <= cap)
            cs.append(cur >= 0)
        return And(*cs)

    def duration(self, r):
        return sum(self.t(i, j) for i, j in self.edges(r)) + sum(self.s(v) for v in r)

    def arrivals(self, r):
        a = {S: self.lower.get(S, 0)}
        out = [a[S]]
        cur = out[0]
        for i, j in self.edges(r):
            cur = smax(cur + self.s(i) + self.t(i, j), self.lower.get(j, 0))
            out.append(cur)
        return out

    def sink_upper(self):
        return self.upper.get(T, 0)

    def windows_ok(self, r):
        arr = self.arrivals(r)
        cs = []
        for v, a in zip(r, arr):
            if v == T and T not in self.upper:
                continue  # no closing time was given
            cs.append(a <= self.upper.get(v, 0) if v in self.upper or v not in (S,) else True)
        return And(*cs)

    def route_feasible(self, r, k=0):
        """every constraint of the problem, for one route on vehicle type k"""
        a = self.args
        cs = []
        if not all(self.has_edge(i, j) for i, j in self.edges(r)):
            return False
        if a.get("load_capacity") is not None:
            if a.get("pickup_delivery"):
                pass
            elif a.get("distribution_collection"):
                cs.append(self.onboard_ok(r, self.cap(k)))
            else:
                cs.append(self.load(r) <= self.cap(k))
        if a.get("pickup_delivery"):
            cs.append(self.pd_ok(r, self.cap(k)))
        if a.get("num_stops") is not None:
            cs.append(len(r) - 2 <= a["num_stops"])
        if a.get("duration") is not None:
            cs.append(self.duration(r) <= a["duration"])
        if a.get("time_windows"):
            cs.append(self.windows_ok(r))
        return And(*cs)

    def simple_routes(self, max_len=None):
        out = []
        for m in range(1, (max_len or self.n) + 1):
            for p in itertools.permutations(self.customers, m):
                r = [S] + list(p) + [T]
                if all(self.has_edge(i, j) for i, j in self.edges(r)):
                    out.append(r)
        return out


# ------------------------------------------------------------------ oracles
def routes_of(prob):
    return {k: list(v) for k, v in prob.best_routes.items()}


def o_shape(inst, prob):
    """routes are simple Source-Sink paths of the given network"""
    obs = []
    for k, r in routes_of(prob).items():
        ok = (
            len(r) >= 3 and r[0] == S and r[-1] == T
            and len(set(r)) == len(r)
            and all(v in inst.customers for v in r[1:-1])
            and all(inst.has_edge(i, j) for i, j in inst.edges(r))
        )
        obs.append(("route %s is not a simple Source-Sink path of the network" % (r,), ok))
    if not obs:
        obs.append(("no route", True))
    return obs


def o_cover(inst, prob, dropped_ok=False, freq=False):
    obs = []
    rs = routes_of(prob)
    for v in inst.customers:
        cnt = sum(r.count(v) for r in rs.values())
        want = inst.frequency.get(v, 1) if freq else 1
        if dropped_ok:
            dropped = v in list(prob._dropped_nodes)
            obs.append(("customer %s neither served once nor dropped" % v,
                        (cnt == 1 and not dropped) or (cnt == 0 and dropped)))
        else:
            obs.append(("customer %s served %d times" % (v, cnt), cnt == want))
    return obs


def o_types(inst, prob):
    obs = []
    for k in routes_of(prob):
        t = prob.best_routes_type.get(k)
        obs.append(("route %s has vehicle type %s" % (k, t), t in range(inst.types)))
    return obs


def o_capacity(inst, prob):
    obs = []
    for k, r in routes_of(prob).items():
        t = prob.best_routes_type.get(k)
        if t not in range(inst.types):
            obs.append(("route without vehicle type", False))
            continue
        obs.append(("load of route %s exceeds capacity of vehicle type %s" % (r, t),
                    inst.load(r) <= inst.cap(t)))
    return obs


def o_sdc(inst, prob):
    obs = []
    for k, r in routes_of(prob).items():
        t = prob.best_routes_type.get(k)
        obs.append(("on-board load of %s exceeds capacity of type %s" % (r, t),
                    t in range(inst.types) and inst.onboard_ok(r, inst.cap(t))))
    return obs


def o_pd(inst, prob):
    obs = []
    for k, r in routes_of(prob).items():
        t = prob.best_routes_type.get(k)
        obs.append(("pickup/delivery rules broken on %s (type %s)" % (r, t),
                    t in range(inst.types) and inst.pd_ok(r, inst.cap(t))))
    return obs


def o_stops(inst, prob):
    return [("route %s has more stops than allowed" % (r,), len(r) - 2 <= inst.args["num_stops"])
            for r in routes_of(prob).values()]


def o_duration(inst, prob):
    return [("route %s lasts longer than allowed" % (r,), inst.duration(r) <= inst.args["duration"])
            for r in routes_of(prob).values()]


def o_windows(inst, prob):
    return [("route %s misses a time window" % (r,), inst.windows_ok(r))
            for r in routes_of(prob).values()]


def expected_cost(inst, prob):
    rs = routes_of(prob)
    return {k: inst.route_cost(r, prob.best_routes_type[k]) for k, r in rs.items()}


def o_value(inst, prob):
    obs = []
    exp = expected_cost(inst, prob)
    got = prob.best_routes_cost
    obs.append(("route ids of costs", set(got) == set(exp)))
    for k in exp:
        obs.append(("reported cost of route %s %s" % (k, prob.best_routes[k]), got.get(k) == exp[k]))
    if inst.args.get("minimize_global_span"):
        tot = smax(list(exp.values())) if exp else 0
    else:
        tot = sum(exp.values())
    pen = inst.args.get("drop_penalty")
    if pen is not None:
        served = {v for r in routes_of(prob).values() for v in r}
        tot = tot + pen * len([v for v in inst.customers if v not in served])
    if exp or not inst.args.get("minimize_global_span"):
        obs.append(("best_value is not the cost of the routes plus penalties", prob.best_value == tot))
    return obs


def o_loads(inst, prob):
    """reported loads, durations, arrival and departure times"""
    obs = []
    rs = routes_of(prob)
    a = inst.args
    if a.get("load_capacity") is not None and not a.get("distribution_collection") and not a.get("pickup_delivery"):
        got = prob.best_routes_load
        for k, r in rs.items():
            obs.append(("best_routes_load of %s" % (r,), got.get(k) == inst.load(r)))
    if a.get("load_capacity") is not None:
        got = prob.node_load
        for k, r in rs.items():
            if a.get("distribution_collection"):
                cur = inst.cap(prob.best_routes_type[k])
            else:
                cur = 0
            for v in r:
                if a.get("distribution_collection"):
                    cur = cur + inst.q(v) - inst.d(v)
                else:
                    cur = cur + inst.d(v)
                obs.append(("node_load of %s on %s" % (v, r), got.get(k, {}).get(v) == cur))
    if a.get("duration") is not None or a.get("time_windows"):
        got = prob.best_routes_duration
        at, dt = prob.arrival_time, prob.departure_time
        for k, r in rs.items():
            obs.append(("best_routes_duration of %s" % (r,), got.get(k) == inst.duration(r)))
            arr = inst.arrivals(r)
            for i, v in enumerate(r):
                obs.append(("arrival_time of %s on %s" % (v, r), at.get(k, {}).get(v) == arr[i]))
                dep = arr[i] + inst.s(v) if v != S else arr[i]
                obs.append(("departure_time of %s on %s" % (v, r), dt.get(k, {}).get(v) == dep))
    return obs


def o_fleet(inst, prob):
    obs = []
    nv = inst.args.get("num_vehicles")
    if nv is None:
        return obs
    nv = nv if isinstance(nv, list) else [nv]
    rs = routes_of(prob)
    for k in range(len(nv)):
        cnt = len([r for r in rs if prob.best_routes_type[r] == k])
        if inst.args.get("use_all_vehicles"):
            obs.append(("%d vehicles of type %d used, not exactly as many as required" % (cnt, k), cnt == nv[k]))
        else:
            obs.append(("%d vehicles of type %d used, more than available" % (cnt, k), cnt <= nv[k]))
    return obs


def o_ids(inst, prob):
    """every per-route report speaks about the same routes"""
    ids = set(prob.best_routes)
    obs = [("vehicle types for other routes", set(prob.best_routes_type) == ids)]
    for n in ("best_routes_load", "best_routes_duration", "arrival_time", "departure_time", "node_load"):
        got = getattr(prob, n)
        if got:
            obs.append(("%s for other routes" % n, set(got) == ids))
    return obs


def o_schedule(inst, prob):
    """periodic problem: visits, and one valid day per route"""
    obs = []
    rs = routes_of(prob)
    days = inst.args["periodic"]
    for v in inst.customers:
        cnt = sum(r.count(v) for r in rs.values())
        obs.append(("customer %s visited more often than asked" % v, cnt <= inst.frequency.get(v, 1)))
        obs.append(("customer %s visited less often than asked" % v, cnt >= inst.frequency.get(v, 1)))
    sch = prob.schedule
    placed = [r for d in sch for r in sch[d]]
    nv = inst.args.get("num_vehicles")
    nv = nv if isinstance(nv, list) else [nv] if nv is not None else None

    def valid(assign):
        for d in range(days):
            today = [r for r in rs if assign[r] == d]
            seen = [v for r in today for v in rs[r][1:-1]]
            if len(seen) != len(set(seen)):
                return False
        cs = []
        if nv is not None:
            for d in range(days):
                for k in range(len(nv)):
                    n = len([r for r in rs if assign[r] == d and prob.best_routes_type[r] == k])
                    cs.append(n <= nv[k])
        return And(*cs)

    if not placed:
        ids = sorted(rs)
        every = [valid(dict(zip(ids, c))) for c in itertools.product(range(days), repeat=len(ids))]
        obs.append(("no schedule although one exists", Not(Or(*every))))
        return obs
    obs.append(("a route is not scheduled exactly once", sorted(placed) == sorted(rs)))
    obs.append(("a day outside the horizon", all(d in range(days) for d in sch)))
    if sorted(placed) == sorted(rs):
        obs.append(("a customer visited twice on a day or too many vehicles on a day",
                    valid({r: d for d in sch for r in sch[d]})))
    return obs
