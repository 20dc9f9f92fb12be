"""Runs scenarios: symbolic exploration on all cores, replay, evidence."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from .sym import CURRENT, Infeasible, Not, Steer, SymBool, SymNum, bterm, is_sym, num_term, z3
from .explore import Cut, EngineError, Explorer, Stats, z3_to_py
from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 8)


# ------------------------------------------------------------------ scenario
class Scenario:
    def __init__(self, name, body, tier="quick", bounds="", known=None, expect="reach",
                 max_paths=None):
        self.name = name
        self.body = body
        self.tier = tier  # quick: run in both tiers; thorough: only there
        self.bounds = bounds
        self.known = known  # id of a known finding this scenario exhibits
        self.max_paths = max_paths
        self.expect = expect


class Outcome:
    """Result of calling into the code: value or exception."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class Ctx:
    """What a scenario body sees; symbolic or (replay) concrete."""

    def __init__(self, ex):
        self.ex = ex
        self.policy = env.POLICY
        self.facts = {}
        self.reached = False

    @property
    def symbolic(self):
        return self.ex.symbolic

    def int(self, name, lo, hi, kind="int"):
        if not self.symbolic:
            return self.ex.input(name)
        t = self.ex.symbol(name, "int")
        if lo == hi:
            self.ex.add(t == lo)
        else:
            self.ex.add(z3.And(t >= lo, t <= hi))
        return SymNum(t, kind)

    def num(self, name, lo, hi):
        """integer-valued quantity the code sees as a float"""
        return self.int(name, lo, hi, kind="float")

    def half(self, name, lo, hi):
        """multiple of one half (exact in floating point)"""
        if not self.symbolic:
            return self.ex.input(name) / 2
        t = self.ex.symbol(name, "int")
        self.ex.add(z3.And(t >= 2 * lo, t <= 2 * hi))
        return SymNum(z3.ToReal(t) / 2, "float")

    def bool(self, name):
        if not self.symbolic:
            return bool(self.ex.input(name))
        return SymBool(self.ex.symbol(name, "bool"))

    def pick(self, name, options):
        """fork over concrete options (recorded as an input)"""
        if not self.symbolic:
            return options[self.ex.input(name)]
        i = self.ex.choose([(i, True) for i in range(len(options))], "k")
        self.ex.inputs[name] = z3.IntVal(i)
        return options[i]

    def assume(self, c):
        if c is True:
            return
        if not self.symbolic:
            if not c:
                raise EngineError("replay input violates an assumption")
            return
        if c is False:
            raise Infeasible()
        self.ex.assume(c)

    def call(self, fn, *a, **k):
        try:
            return Outcome(value=fn(*a, **k))
        except EngineError:
            raise
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1] if tb else None
            if last is not None and "/symvrp/" in last.filename and not isinstance(
                e, (ZeroDivisionError,)
            ) and not getattr(e, "vp_env", False):
                # an error of the machinery itself unless it stands for the
                # environment's own failure
                if not last.filename.endswith("env.py") or isinstance(e, (AttributeError, TypeError, NameError)):
                    raise EngineError("machinery: %r\n%s" % (e, "".join(traceback.format_tb(e.__traceback__)[-6:])))
            if "SymNum" in str(e) or "SymBool" in str(e) or (
                last is not None and not last.filename.startswith(env.REPO + "/") and any(
                    "/symvrp/" in f.filename and "/checks/" not in f.filename and not f.filename.endswith("driver.py")
                    for f in tb[-4:])
                and not getattr(e, "vp_env", False) and not isinstance(e, ZeroDivisionError)
                and not last.filename.endswith("symvrp/env.py")
            ):
                raise EngineError("machinery: %r\n%s" % (e, "".join(traceback.format_tb(e.__traceback__)[-8:])))
            return Outcome(exc=e)

    def lp_calls(self):
        return env.STATE.lp_calls

    def free_dual(self, key):
        t = self.ex.fresh("pi_%s" % key, "int")
        self.ex.add(z3.And(t >= 0, t <= 2 * env.POLICY.dual_bound))
        return SymNum(z3.ToReal(t) / 2, "float")

    def witness(self):
        self.reached = True

    def skip(self, why):
        """the path is not about the property (counted in the evidence)"""
        raise Cut(why)


# ------------------------------------------------------------------ replay
class Script:
    """Concrete counterpart of Explorer: reads a recorded counterexample."""

    symbolic = False

    def __init__(self, data):
        self.inputs_ = data["inputs"]
        self.log = list(data["env"])
        self.pos = 0
        self.notes = {}

    def input(self, name):
        return unjson(self.inputs_[name])

    def decide(self, e):
        raise EngineError("symbolic value in replay")

    def _next(self, kind):
        if self.pos >= len(self.log):
            raise EngineError("replay: environment script exhausted (%s)" % kind)
        r = self.log[self.pos]
        self.pos += 1
        if r[0] != kind:
            raise EngineError("replay: expected %s, script has %s" % (kind, r[0]))
        return r

    def scripted_lp(self, prob):
        import pulp

        _, status, values, duals, optimal = self._next("lp")
        sol = env.LpSolution(prob, status)
        vs = env.lp_vars(prob)
        for v in vs:
            if v.name not in values:
                raise EngineError("replay: unknown LP variable %s" % v.name)
            v.varValue = tofloat(unjson(values[v.name]))
            sol.values[v.name] = v.varValue
        if status == pulp.LpStatusOptimal:
            eps = 1e-6
            for v in vs:
                x = v.varValue
                if v.lowBound is not None and x < v.lowBound - eps:
                    raise EngineError("replay: bound of %s" % v.name)
                if v.upBound is not None and x > v.upBound + eps:
                    raise EngineError("replay: bound of %s" % v.name)
                if v.cat == pulp.LpInteger and abs(x - round(x)) > eps:
                    raise EngineError("replay: integrality of %s" % v.name)
            for n, c in prob.constraints.items():
                s = env.row_expr(c, lambda v: v.varValue)
                bad = abs(s) > eps if c.sense == 0 else s < -eps if c.sense > 0 else s > eps
                if bad:
                    raise EngineError("replay: constraint %s not satisfied" % n)
            if optimal:
                mine = env.row_expr(prob.objective, lambda v: v.varValue)
                best = real_optimum(prob)
                if best is None or mine > best + 1e-4:
                    raise EngineError("replay: not optimal (%s vs %s)" % (mine, best))
        elif status == pulp.LpStatusInfeasible:
            if real_optimum(prob) is not None:
                raise EngineError("replay: problem is feasible")
        if len(duals) != len(prob.constraints):
            raise EngineError("replay: %d constraints, script has %d" % (len(prob.constraints), len(duals)))
        # by position: some constraint names contain data
        for (n, c), d in zip(prob.constraints.items(), duals):
            c.pi = tofloat(unjson(d))
            sol.duals[n] = c.pi
            if status == pulp.LpStatusOptimal and c.keys() and not env.POLICY_free_duals:
                if (c.sense > 0 and c.pi < 0) or (c.sense < 0 and c.pi > 0):
                    raise EngineError("replay: dual sign")
        return sol

    def scripted_cspy(self, alg):
        _, path, optimal = self._next("cspy")
        path = [unjson(v) for v in path] if path is not None else None
        if path is not None:
            for a, b in zip(path[:-1], path[1:]):
                if not alg.original.has_edge(a, b):
                    raise EngineError("replay: path edge missing")
            if alg.elementary and len(set(path)) != len(path):
                raise EngineError("replay: path not elementary")
            if not alg.within(path):
                raise EngineError("replay: path resources")
        if optimal and path is not None and alg.threshold is not None and alg.cost_of(path) <= alg.threshold:
            return path
        if optimal:
            for q in alg.simple_paths():
                if alg.within(q):
                    if path is None or alg.cost_of(q) < alg.cost_of(path) - 1e-6:
                        raise EngineError("replay: cspy answer not optimal")
        return path

    def scripted_time(self):
        return float(unjson(self._next("time")[1]))

    def scripted_choice(self, n):
        i = self._next("choice")[1]
        if i >= n:
            raise EngineError("replay: choice out of range")
        return i


env.POLICY_free_duals = True


def real_optimum(prob):
    """Ask the real CBC for the optimum of a (concrete) problem object."""
    import pulp

    p = prob.deepcopy()
    saved = [(v, v.varValue) for v in env.lp_vars(prob)]
    solver = pulp.PULP_CBC_CMD(msg=False)
    wasNone, dummy = p.fixObjective()
    solver.actualSolve(p)
    st = p.status
    val = 0
    if p.objective is not None:
        val = p.objective.constant + sum(x * (v.varValue or 0) for v, x in p.objective.items())
    p.restoreObjective(wasNone, dummy)
    for v, x in saved:
        v.varValue = x
    return val if st == 1 else None


def tofloat(x):
    if isinstance(x, Fraction):
        return float(x)
    return x


def tojson(x):
    if isinstance(x, Fraction):
        return {"frac": [x.numerator, x.denominator]}
    return x


def unjson(x):
    if isinstance(x, dict) and "frac" in x:
        return Fraction(*x["frac"])
    return x


def concretise(ex, model, optimal_flags):
    def ev(v):
        if v is None:
            return None
        if type(v) in (SymNum, SymBool):
            return tojson(z3_to_py(model.eval(v.e, model_completion=True)))
        return tojson(frac_(v))

    def frac_(v):
        return v

    inputs = {}
    for n, t in ex.inputs.items():
        inputs[n] = tojson(z3_to_py(model.eval(t, model_completion=True)))
    log = []
    for r in ex.env_log:
        if r[0] == "lp":
            sol = r[1]
            log.append(
                ["lp", sol.status, {n: ev(v) for n, v in sol.values.items()},
                 [ev(v) for v in sol.duals.values()], bool(getattr(sol, "optimal", False))]
            )
        elif r[0] == "cspy":
            log.append(["cspy", r[1], bool(env.POLICY.cspy_optimal)])
        elif r[0] == "time":
            log.append(["time", ev(r[1])])
        else:
            log.append(list(r))
    return {"inputs": inputs, "env": log}


# ------------------------------------------------------------------ one path
def validate(scn, data):
    """Push one concrete input of an explored path through the same code with
    ordinary numbers; the obligations proved symbolically must hold."""
    env.reset()
    CURRENT.ex = Script(data)
    try:
        obl = obligations_of(scn, Ctx(CURRENT.ex))
        bad = [o[0] for o in obl if not o[1]]
        return "concrete run disagrees: %s" % bad[:3] if bad else None
    except Cut as c:
        return "concrete run left the bounds: %s" % c.why
    except EngineError as e:
        return "concrete run: %s" % e
    except Exception as e:  # noqa
        return "concrete run raised %r %s" % (e, traceback.format_exc()[-600:])
    finally:
        CURRENT.ex = None


def obligations_of(scn, ctx):
    """the scenario's obligations; an error raised by the code while the
    results are read is a violation of its own"""
    try:
        return scn.body(ctx) or []
    except EngineError:
        raise
    except RecursionError:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if f.filename.startswith(env.REPO + "/") or "/symvrp/" in f.filename]
        shims = ("smax", "smin")
        while inner and inner[-1].name in shims:
            inner.pop()
        if inner and inner[-1].filename.startswith(env.REPO + "/"):
            return [("reading the results raised %s" % type(e).__name__, False)]
        raise EngineError("scenario: %r\n%s" % (e, "".join(traceback.format_tb(e.__traceback__)[-6:])))


def run_path(scn, prefix, stats, sample=False):
    """Execute one path symbolically; returns dict."""
    env.reset()
    ex = Explorer(prefix, stats)
    CURRENT.ex = ex
    ctx = Ctx(ex)
    out = {"status": "ok", "viol": [], "pending": [], "reached": False, "obl": 0,
           "trivial": 0}
    try:
        obligations = obligations_of(scn, ctx)
        out["reached"] = bool(obligations) or ctx.reached
        for o in obligations:
            label, cond = o[0], o[1]
            out["obl"] += 1
            if cond is True:
                out["trivial"] += 1
                continue
            neg = z3.Not(bterm(cond))
            m = ex.model_for(neg)
            if m is not None:
                data = concretise(ex, m, None)
                data["label"] = label
                out["viol"].append(data)
        if sample and out["reached"] and not out["viol"]:
            m = ex.model_for(z3.BoolVal(True))
            if m is not None:
                out["sample"] = concretise(ex, m, None)
    except Infeasible:
        out["status"] = "infeasible"
    except Cut as c:
        out["status"] = "cut"
        out["why"] = c.why
    except EngineError as e:
        out["status"] = "error"
        out["why"] = "%s" % e
        out["tb"] = traceback.format_exc()[-1500:]
    except RecursionError as e:
        out["status"] = "error"
        out["why"] = "recursion"
    finally:
        CURRENT.ex = None
    out["pending"] = ex.pending
    out["decisions"] = len(ex.trace)
    if out.get("sample") is not None:
        out["mismatch"] = validate(scn, out["sample"])
    return out


_SCN = {}
_FUNCS = set()


def _start_monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "symvrp")
    except ValueError:
        return

    def on_start(code, off):
        fn = code.co_filename
        if "/vrpy/" in fn and fn.startswith(env.REPO):
            _FUNCS.add("%s:%s" % (os.path.relpath(fn, env.REPO), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, on_start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)


def _work(task):
    scn_name, prefixes, budget_paths, budget_s = task
    scn = _SCN[scn_name]
    stats = Stats()
    stack = list(prefixes)
    res = []
    t0 = time.time()
    n = 0
    while stack and n < budget_paths and time.time() - t0 < budget_s:
        p = stack.pop()
        r = run_path(scn, p, stats, sample=(n % 20 == 0))
        stack.extend(r.pop("pending"))
        res.append(r)
        n += 1
    return scn_name, res, stack, stats.as_dict(), sorted(_FUNCS)


def _init_worker():
    os.environ["PYTHONHASHSEED"] = "0"
    sys.setrecursionlimit(5000)
    sys.stdout = open(os.devnull, "w")
    env.install()
    _start_monitor()


class Result:
    def __init__(self):
        self.paths = self.infeasible = self.cut = self.obl = self.trivial = 0
        self.errors = []
        self.viol = []
        self.cuts = {}
        self.decisions = 0
        self.reached = 0
        self.stats = Stats()
        self.funcs = set()
        self.wall = 0.0
        self.complete = True
        self.validated = 0
        self.mismatch = []
        self.samples = []


def explore(scenarios, deadline, log=lambda s: None):
    """Explore all scenarios; returns {name: Result}."""
    global _SCN
    _SCN = {s.name: s for s in scenarios}
    results = {s.name: Result() for s in scenarios}
    stopped = set()
    ctx = mp.get_context("fork")
    env.install()
    with ctx.Pool(NPROC, initializer=_init_worker) as pool:
        queue = [(s.name, [[]]) for s in scenarios]
        running = []
        inflight = {s.name: 0 for s in scenarios}
        started = {}
        while queue or running:
            while queue and len(running) < 2 * NPROC:
                name, pre = queue.pop(0)
                if name in stopped:
                    continue
                started.setdefault(name, time.time())
                inflight[name] += 1
                few = len(queue) + len(running) < 2 * NPROC
                budget = (4, 0.3) if few else (40, 2.0)
                running.append((name, pool.apply_async(_work, ((name, pre) + budget,))))
            done = [x for x in running if x[1].ready()]
            if not done:
                time.sleep(0.01)
                if time.time() > deadline:
                    for s in scenarios:
                        if inflight[s.name] or any(q[0] == s.name for q in queue):
                            results[s.name].complete = False
                    pool.terminate()
                    break
                continue
            for x in done:
                running.remove(x)
                name, res, stack, st, funcs = x[1].get()
                R = results[name]
                inflight[name] -= 1
                R.wall = time.time() - started[name]
                for k, v in st.items():
                    setattr(R.stats, k, getattr(R.stats, k) + v)
                R.funcs.update(funcs)
                for r in res:
                    if r["status"] == "infeasible":
                        R.infeasible += 1
                        continue
                    if r["status"] == "cut":
                        R.cut += 1
                        R.cuts[r["why"]] = R.cuts.get(r["why"], 0) + 1
                        continue
                    if r["status"] == "error":
                        R.errors.append(r["why"] + "\n" + r.get("tb", ""))
                        if len(R.errors) >= 3:
                            stopped.add(name)
                        continue
                    R.paths += 1
                    R.decisions += r["decisions"]
                    R.obl += r["obl"]
                    R.trivial += r["trivial"]
                    R.reached += bool(r["reached"])
                    R.viol.extend(r["viol"])
                    if "mismatch" in r:
                        R.validated += 1
                        if r["mismatch"]:
                            R.mismatch.append(r["mismatch"])
                        elif len(R.samples) < 2:
                            R.samples.append(r["sample"]["inputs"])
                if len(R.viol) >= 12:
                    stopped.add(name)
                if name not in stopped and stack:
                    # split the remaining work
                    k = max(1, min(NPROC, len(stack)))
                    for i in range(k):
                        part = stack[i::k]
                        if part:
                            queue.append((name, part))
    return results


# ------------------------------------------------------------------ replay
def replay_file(path):
    """Run in a fresh process: exit 1 when the recorded violation reproduces."""
    data = json.load(open(path))
    from .checks import load

    os.environ["PYTHONHASHSEED"] = "0"
    scns = {s.name: s for s in load(data["property"])}
    scn = scns[data["scenario"]]
    env.install()
    env.reset()
    ex = Script(data)
    CURRENT.ex = ex
    ctx = Ctx(ex)
    obligations = obligations_of(scn, ctx)
    bad = [o for o in obligations if not o[1]]
    for o in bad:
        print("violated: %s" % (o[0],), *(o[2:] if len(o) > 2 else ()))
    return 1 if bad else 0


def try_replay(path):
    r = subprocess.run(
        [sys.executable, "-m", "symvrp.replay", path], cwd=VERIF, capture_output=True,
        text=True, timeout=120, env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"),
    )
    return r.returncode, (r.stdout + r.stderr)[-3000:]
