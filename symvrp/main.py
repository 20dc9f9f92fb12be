"""Decide one property: explore, replay what fails, write the evidence."""
import argparse
import json
import os
import re
import shutil
import sys
import time

from . import driver

VERIF = driver.VERIF
OUT = os.environ.get("VP_OUT") or VERIF
DEADLINE = {"quick": 240, "thorough": 3300}

ASSUMPTIONS = [
    "LP/MIP solver: 'Optimal' with any point that satisfies all rows, bounds and integrality of the problem it was "
    "given (minimal objective where a scenario says so), 'Infeasible' only if there is none; dual values are "
    "arbitrary multiples of 1/2 with the right sign",
    "cspy: any walk whose resources, accumulated by the real resource arrays or the real extension function, stay "
    "within the bounds it was given, or no walk",
    "numbers are integers or multiples of 1/2; floating point is read as exact arithmetic",
    "single-customer (or single-request) routes are feasible; demands are not negative; user-given initial and "
    "preassigned routes are feasible; travel times satisfy the triangle inequality where windows are given",
    "of interchangeable columns of the selection problem the solver takes the first ones",
]


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) label=/(.*?)/ (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def selftest():
    """the tools are there and the code in /repo is the one that gets imported"""
    from . import env
    from .sym import z3

    s = z3.Solver()
    x = z3.Int("x")
    s.add(x * 2 == 7)
    assert s.check() == z3.unsat
    env.install()
    import vrpy

    assert os.path.realpath(vrpy.__file__).startswith(os.path.realpath(env.REPO) + "/"), vrpy.__file__
    print("z3 %s, %s" % (z3.get_version_string(), vrpy.__file__))
    return 0


def main(argv):
    if argv == ["--selftest"]:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--scenario", nargs="*")
    ap.add_argument("--deadline", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in DEADLINE else "quick"
    t0 = time.time()
    from .checks import load

    pid = a.property
    scns = [s for s in load(pid) if tier == "thorough" or s.tier == "quick"]
    if a.scenario:
        scns = [s for s in scns if s.name in a.scenario]
    deadline = t0 + (a.deadline or DEADLINE[tier])
    R = driver.explore(scns, deadline)
    known = [k for k in known_findings() if k[0] == pid]
    rdir = os.path.join(OUT, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    violations, spurious, knowns = [], [], {}
    for n, r in R.items():
        per_label = {}
        for v in r.viol:
            per_label.setdefault(v["label"], []).append(v)
        done = 0
        for label, vs in per_label.items():
            if done >= 2 or time.time() > deadline + 200:
                break
            for i, v in enumerate(vs[:3]):
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-%d.json" % (n, len(os.listdir(rdir))))
                json.dump(dict(v, property=pid, scenario=n), open(path, "w"), indent=1)
                rc, txt = driver.try_replay(path)
                if rc == 1:
                    k = [k for k in known if re.fullmatch(k[1], n) and re.search(k[2], label)]
                    if k:
                        knowns[k[0]] = path
                    else:
                        violations.append((n, label, path, txt))
                        done += 1
                    break
                spurious.append((n, label, path, txt[-600:]))
    paths = sum(r.paths for r in R.values())
    errors = [(n, e) for n, r in R.items() for e in r.errors]
    mism = [(n, m) for n, r in R.items() for m in r.mismatch]
    complete = all(r.complete for r in R.values()) and not errors and not spurious
    cuts = {}
    for r in R.values():
        for k, c in r.cuts.items():
            cuts[k] = cuts.get(k, 0) + c
    for n, label, path, txt in violations:
        print("violated in %s: %s" % (n, label))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED") or 0),
        "level": "model_checking",
        "coverage": {
            "states": paths,
            "transitions": sum(r.decisions for r in R.values()),
            "traces_validated_against_impl": sum(r.validated for r in R.values()),
            "validation_mismatches": len(mism),
            "samples": [{"scenario": n, "inputs": x} for n, r in R.items() for x in r.samples[:1]][:12],
            "exhaustive": complete,
            "what": "states: symbolic paths of the real code decided completely; transitions: branch, solver-answer "
                    "and choice decisions on them; each path covers all values of its symbolic inputs",
            "scenarios": {
                n: {"paths": r.paths, "with_obligations": r.reached, "infeasible": r.infeasible, "left_bounds": r.cuts,
                    "obligations": r.obl, "decided_by_solver": r.obl - r.trivial, "queries": r.stats.queries,
                    "unsat": r.stats.unsat, "sat": r.stats.sat, "unknown": r.stats.unknown,
                    "solver_s": round(r.stats.solver_s, 2), "complete": r.complete}
                for n, r in R.items()
            },
            "obligations": sum(r.obl for r in R.values()),
            "queries": sum(r.stats.queries for r in R.values()),
            "solver_s": round(sum(r.stats.solver_s for r in R.values()), 2),
            "functions_encoded": sorted(set().union(*[r.funcs for r in R.values()]) if R else []),
            "bounds": "2 to 4 customers with freely varying data (up to 11 on a sparse network with fewer variables), up to 5 "
                      "vehicle types, up to 2 rounds of column generation; see DESIGN.md "
                      "for the bounds of each scenario",
            "engine_errors": [list(e) for e in errors[:5]],
            "not_reproduced": [list(s) for s in spurious[:5]],
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d scenarios, %d paths, %d obligations, %d queries, %d replays validated, %d errors, complete=%s, %.0f s" % (
        pid, len(R), paths, ev["coverage"]["obligations"], ev["coverage"]["queries"],
        ev["coverage"]["traces_validated_against_impl"], len(errors), complete, time.time() - t0))
    if a.v or os.environ.get("VP_STRICT"):
        for n, r in R.items():
            print("  %-16s %.1fs paths %d/%d cut %s complete %s" % (n, r.wall, r.reached, r.paths, r.cuts, r.complete))
        for e in errors[:3]:
            print("error", e[0], e[1][-1500:])
        for m in mism[:3]:
            print("mismatch", m)
        for s in spurious[:3]:
            print("not reproduced", s)
    if violations:
        return 1
    if os.environ.get("VP_STRICT") and (errors or spurious or mism or not complete
                                         or any(not r.reached for r in R.values())):
        return 3
    if paths == 0 and not any(r.cuts for r in R.values()):
        return 2
    return 0
