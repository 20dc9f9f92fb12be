"""Writes properties.jsonl and MANIFEST.json (run by hand after a change here)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = "The tests solve a handful of fixed instances (a five-node toy graph, some small benchmark files) and compare one number; "


def P(id, title, statement, over, text, why, files, mech, observe):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    }


ALLF = ["vrpy/vrp.py", "vrpy/master_solve_pulp.py", "vrpy/subproblem_lp.py", "vrpy/subproblem_cspy.py",
        "vrpy/subproblem_greedy.py", "vrpy/clarke_wright.py", "vrpy/greedy.py"]
MASTER = ("set covering rows turned into equalities for the final selection", "vrpy/master_solve_pulp.py:_MasterSolvePulp._solve")
LPF = ("LP pricing formulation", "vrpy/subproblem_lp.py:_SubProblemLP._formulate")
CSF = ("resource arrays, bounds and extension functions of the cspy pricing", "vrpy/subproblem_cspy.py:_SubProblemCSPY.formulate, _MyREFCallback")
CW = ("merge feasibility of Clarke & Wright", "vrpy/clarke_wright.py:_ClarkeWright.process_edge")
GR = ("greedy initial routes and randomised greedy pricing", "vrpy/greedy.py:_Greedy, vrpy/subproblem_greedy.py:_SubProblemGreedy")
INI = ("initial columns", "vrpy/vrp.py:VehicleRoutingProblem._get_initial_solution, _convert_initial_routes_to_digraphs")
IN = ["inputs", "configurations"]

props = [
    P("C01", "Every customer is served exactly once",
      "After solve() returns, every customer of the network is on exactly one reported route, and exactly once on it; with a drop penalty, every customer is on at most one route and the penalty is paid exactly once for each customer that is on none. This holds for every pricing method (cspy, LP, greedy), pricing strategy, initial solution, preassignment, diving and the heuristic-only mode.",
      IN, "all demands, capacities, costs, times, windows and options, all answers of the LP/MIP solver and cspy that satisfy the problem they were given",
      TESTS + "they never look at solutions the external solvers might return but did not, where a missing or wrong row of the formulation shows.",
      ALLF, [MASTER, ("drop variables and reported dropped nodes", "vrpy/master_solve_pulp.py:_add_drop_variables, get_total_cost_and_routes"), ("diving fixes no unfinished solution", "vrpy/restricted_master_heuristics.py"), ("preassigned routes removed from the network and reported", "vrpy/vrp.py:_remove_nodes / _add_preassigned_routes")],
      ["best_routes", "best_value"]),
    P("C02", "No route carries more than its vehicle's capacity",
      "On every reported route the demands of its customers sum to at most the load capacity of the vehicle type reported for that route. This holds whatever produced the route: heuristics, initial or preassigned routes, LP, cspy or greedy pricing, single or mixed fleet.",
      IN, "all demands and capacities (per vehicle type), all solver answers allowed by the formulation",
      TESTS + "capacities that bind at exact equality, mixed fleets whose smaller types cannot carry a route, and non-optimal solver answers are not sampled.",
      ALLF, [LPF, CSF, CW, GR, INI], ["best_routes", "best_routes_type", "best_routes_load"]),
    P("C03", "Distribution and collection: the vehicle is never overloaded on any leg",
      "With simultaneous distribution and collection, on every leg of every reported route the goods still to be delivered plus those collected so far fit in the vehicle type reported for the route.",
      IN, "all demands, collected quantities and capacities, one or several vehicle types, cspy and LP pricing",
      TESTS + "one five-node instance has collection at all; the order of visits that overloads a vehicle in the middle of a route is not in it.",
      ["vrpy/subproblem_lp.py", "vrpy/subproblem_cspy.py", "vrpy/vrp.py"], [LPF, CSF, INI], ["best_routes", "best_routes_type", "node_load"]),
    P("C04", "Pickup and delivery: same vehicle, pickup first, never overloaded",
      "With pickup and delivery, both ends of every request are on the same reported route, the pickup before the delivery, and the load on board stays between zero and the capacity of the reported vehicle type after every stop.",
      IN, "all request quantities and capacities, one or two vehicle types, with and without time windows",
      TESTS + "two instances have requests; precedence and pairing rest on big-M rows that a lucky optimum hides.",
      ["vrpy/subproblem_lp.py", "vrpy/vrp.py"], [LPF, INI], ["best_routes", "best_routes_type", "node_load"]),
    P("C05", "No route has more stops than allowed",
      "With num_stops = K, no reported route visits more than K customers, whatever heuristic or pricing method produced it and also when a capacity implies a tighter bound.",
      IN, "all K, demands and capacities",
      TESTS + "one or two values of K are tried.",
      ALLF + ["vrpy/preprocessing.py"], [LPF, CSF, CW, GR, ("tightening of the stop bound", "vrpy/preprocessing.py:get_num_stops_upper_bound")], ["best_routes"]),
    P("C06", "No route lasts longer than allowed",
      "With a duration limit D, on every reported route the travel times (the legs from and to the depot included) plus the service times of its customers sum to at most D, for every heuristic and pricing method.",
      IN, "all travel times, service times and D",
      TESTS + "durations in the tests rarely bind and service times are mostly absent.",
      ALLF, [LPF, CSF, CW, GR, INI], ["best_routes", "best_routes_duration"]),
    P("C07", "Every customer is reached within its time window",
      "With time windows, a vehicle that leaves the Source at its opening time and waits where it is early starts service at every customer of every reported route no later than the customer's closing time, and reaches the Sink before it closes if a closing time is given.",
      IN, "all windows, service times; travel times that satisfy the triangle inequality; LP and cspy pricing, initial solutions",
      TESTS + "a handful of window sets; big-M values and the resource extension function are only exercised where the optimum happens to be.",
      ["vrpy/subproblem_lp.py", "vrpy/subproblem_cspy.py", "vrpy/vrp.py", "vrpy/preprocessing.py"],
      [LPF, CSF, ("window tightening and edge removal", "vrpy/preprocessing.py, vrpy/vrp.py:_prune_graph"), INI], ["best_routes", "arrival_time"]),
    P("C08", "Routes are simple Source-Sink paths of the given network",
      "Every reported route starts at Source, ends at Sink, visits at least one customer and none twice, and uses only links of the given network (or an automatically added depot link of prohibitive cost).",
      IN, "all data, all network shapes of the scenarios, all solver answers (subtours included)",
      TESTS + "the real solvers seldom return disconnected subtours or non-elementary paths on the toy instances.",
      ALLF + ["vrpy/subproblem.py"], [("subtour elimination in LP pricing", "vrpy/subproblem_lp.py:_add_elementarity / subtour removal"), ("non-elementary columns fixed to zero", "vrpy/master_solve_pulp.py:_solve"), ("edges removed by pricing heuristics", "vrpy/subproblem.py")], ["best_routes"]),
    P("C09", "Reported costs are those of the reported routes",
      "The reported cost of a route is the sum of the costs of its links for the reported vehicle type plus that type's fixed cost; the reported value is the sum of them (the largest one when the global span is minimised) plus the drop penalty for every customer that is on no route.",
      IN, "all link costs per vehicle type, fixed costs, penalties, options, preassignments and repeated solves",
      TESTS + "they compare best_value on a few instances, with one or two vehicle types.",
      ["vrpy/vrp.py", "vrpy/master_solve_pulp.py", "vrpy/clarke_wright.py", "vrpy/greedy.py"],
      [("cost properties", "vrpy/vrp.py:best_value, best_routes_cost"), ("fixed costs added to depot links", "vrpy/vrp.py:_add_fixed_costs"), INI], ["best_value", "best_routes_cost", "best_routes_type"]),
    P("C10", "The fleet is respected",
      "For every vehicle type, at most the available number of vehicles is used, exactly that number if all vehicles must be used; every route has one of the given types. When the fleet cannot serve the customers, solve() fails instead of using more vehicles.",
      IN, "all fleet sizes, capacities, fixed costs, one to three vehicle types, preassigned routes included",
      TESTS + "fleet bounds are tested with one or two numbers.",
      ["vrpy/master_solve_pulp.py", "vrpy/vrp.py"], [("vehicle bound rows and their artificial variables", "vrpy/master_solve_pulp.py:_add_bound_vehicles, _add_vehicle_dummy_variables"), ("preassigned routes reduce the fleet", "vrpy/vrp.py")], ["best_routes_type"]),
    P("C11", "Periodic problems: frequencies and the daily schedule",
      "With a planning horizon, every customer is on exactly as many reported routes as its frequency says. The schedule puts every route on exactly one day of the horizon such that no customer is visited twice on a day and no more vehicles of a type are used on a day than available; it is empty only if no such schedule exists.",
      IN, "all capacities, stop limits and fleet sizes within the scenarios, all answers of the scheduling solver that satisfy its formulation",
      TESTS + "one instance with one frequent customer.",
      ["vrpy/schedule.py", "vrpy/master_solve_pulp.py", "vrpy/checks.py"], [("scheduling formulation", "vrpy/schedule.py:_Schedule._formulate"), ("frequencies as right-hand sides and artificial variables", "vrpy/master_solve_pulp.py:_add_set_covering_constraints, _add_artificial_variables")], ["best_routes", "schedule"]),
    P("C12", "Preassigned complete routes are part of the solution",
      "Every complete route given as a preassignment is reported exactly once with its customers on no other route, at its own cost, within the fleet; the remaining customers are still served.",
      IN, "all data under which the preassigned routes are feasible, with drop penalty, fleet bounds, mixed fleet, heuristic-only mode",
      TESTS + "one preassigned route on one instance.",
      ["vrpy/vrp.py"], [("preassigned routes are removed before and added after", "vrpy/vrp.py:_set_preassignments / _add_preassigned_routes")], ["best_routes", "best_routes_cost"]),
    P("C13", "Reported loads, durations and times describe the routes",
      "The reported load, duration, on-board load at each stop, arrival and departure times of every route are those obtained by driving the reported route with the given data, and every report speaks about exactly the reported routes.",
      IN, "all demands, collected quantities, service times, travel times and windows",
      TESTS + "they compare a few entries on one route.",
      ["vrpy/vrp.py"], [("report properties", "vrpy/vrp.py:best_routes_load, best_routes_duration, node_load, arrival_time, departure_time")], ["best_routes_load", "best_routes_duration", "node_load", "arrival_time", "departure_time"]),
    P("C14", "The solution is the cheapest combination of the routes found",
      "No selection of the routes that were available (the initial routes given by the user and the routes returned by the pricing solver) that serves the customers within the fleet is cheaper than the reported solution; so the result is never worse than the initial solution. The same holds for the largest route cost when the global span is minimised, and counting penalties when customers may be dropped.",
      IN, "all link and fixed costs, penalties and fleet sizes; all columns the pricing may return; the selection problem solved to optimality",
      TESTS + "they compare the final value with a known optimum, which hides a wrong cost or a lost column elsewhere.",
      ["vrpy/master_solve_pulp.py", "vrpy/vrp.py", "vrpy/subproblem_cspy.py"], [("columns and objective of the selection problem", "vrpy/master_solve_pulp.py:_add_route_selection_variable, _add_route_selection_variable_for_global_span, update"), INI], ["best_value", "best_routes"]),
    P("C15", "Column generation stops only when no route can improve",
      "If column generation ends by itself (no time or iteration limit), then at the last relaxed solution no feasible route of any vehicle type has a negative reduced cost, whichever pricing strategy was chosen; so the last relaxed value is a valid lower bound.",
      ["inputs", "configurations", "histories"], "all dual values, demands, capacities, stop limits, durations, windows within the scenarios; the pricing problem solved to optimality",
      TESTS + "missing columns only show as a slightly worse optimum on instances nobody tried.",
      ["vrpy/vrp.py", "vrpy/subproblem.py", "vrpy/subproblem_lp.py", "vrpy/subproblem_cspy.py", "vrpy/preprocessing.py"], [LPF, CSF, ("reduced costs on the links", "vrpy/subproblem.py:add_reduced_cost_attribute"), ("fall back to exact pricing", "vrpy/vrp.py:_solve_subproblem_with_heuristic"), ("network pruning", "vrpy/vrp.py:_prune_graph"), ("stop bound", "vrpy/preprocessing.py:get_num_stops_upper_bound")], ["_lower_bound", "best_routes"]),
    P("C16", "Time and iteration limits are respected",
      "With a time limit, every solver call is given a limit no longer than the time that was left when the attempt began (the final selection at least the documented five seconds), no pricing problem is solved once the limit has passed, and solve() still returns a complete solution; with max_iter = N at most N rounds of column generation are run (diving aside).",
      ["schedules", "configurations"], "all non-decreasing clocks, all time limits, all N within the bounds",
      TESTS + "one wall-clock test with one limit.",
      ["vrpy/vrp.py", "vrpy/subproblem_cspy.py", "vrpy/subproblem_lp.py", "vrpy/schedule.py"], [("remaining time", "vrpy/vrp.py:_get_time_remaining"), ("stopping rules", "vrpy/vrp.py:_column_generation")], ["solver calls", "best_routes"]),
    P("C17", "Valid problems are solved without errors, invalid ones rejected",
      "For every consistent problem and every combination of supported options solve() returns, unless the given fleet cannot serve the customers, in which case it reports infeasibility; contradictory arguments, customers without a way to be served, demands above every capacity and malformed initial routes or networks raise an error before anything is computed.",
      IN, "all data and the option combinations of the scenarios",
      TESTS + "a few messages are tested; unexpected exceptions depend on data (division by zero, missing attributes) the tests do not have.",
      ALLF + ["vrpy/checks.py", "vrpy/hyper_heuristic.py", "vrpy/restricted_master_heuristics.py", "vrpy/schedule.py"], [("argument checks", "vrpy/checks.py"), ("consistency checks", "vrpy/vrp.py:_pre_solve")], ["solve()"]),
    P("C18", "Solving again gives the same answer and leaves the user's data alone",
      "Calling solve() again on the same problem with the same options poses the same problems to the solvers and gives the same solution as the first time, whatever was solved before on this or another problem object. The graph and lists handed over by the user are left as they were.",
      ["histories", "inputs"], "all data; histories of two solves with equal or different options, on one or two objects",
      TESTS + "every test builds a fresh problem and solves it once.",
      ["vrpy/vrp.py", "vrpy/restricted_master_heuristics.py", "vrpy/hyper_heuristic.py"], [("working copy of the network", "vrpy/vrp.py:_H, _pre_solve, _initialize"), ("reset of per-solve state", "vrpy/vrp.py:_initialize / solve")], ["best_routes", "best_value", "G"]),
    P("C19", "Columns enter the selection with their true cost and customers",
      "Every route that enters the selection problem from pricing is a route the pricing solver returned, counted for exactly the customers it visits and its vehicle type at its true cost, and it had a negative reduced cost under the dual values it was priced with.",
      ["inputs", "histories"], "all dual values and data, all answers of the pricing solvers",
      TESTS + "they never look at the columns.",
      ["vrpy/subproblem.py", "vrpy/subproblem_lp.py", "vrpy/subproblem_cspy.py", "vrpy/subproblem_greedy.py", "vrpy/master_solve_pulp.py"], [("reduced costs on the links", "vrpy/subproblem.py:add_reduced_cost_attribute"), ("column creation", "create_new_route / _add_new_route"), ("column coefficients", "vrpy/master_solve_pulp.py:_add_route_selection_variable")], ["selection problem", "best_routes"]),
    P("C20", "Benchmark readers build the instance in the file",
      "The example data readers (Augerat, Solomon and others) build the network described by the file: one customer per line, its demand, window and service time, and the distances rounded as documented.",
      ["inputs"], "all benchmark files",
      "Only some files are read by the tests.",
      ["examples/benchmarks"], [("file readers", "examples/benchmarks/*.py")], ["the graph built"]),
]

NOT = {
    "C20": "string parsing of data files by pandas/csv outside the vrpy package: the readers are example code with no "
           "arithmetic a solver would decide; symbolic strings through pandas cannot be encoded here",
}

TECH = "bounded symbolic execution of the real Python code, z3 decides every path condition and obligation, counterexamples replayed"
NOTE = ("Within the stated bounds (2-4 customers, up to 3 vehicle types, up to 2 rounds of pricing, integer data) every value "
        "of the symbolic data and every solver answer allowed by the contract is covered; trusts z3, the contracts of the "
        "external solvers and exact arithmetic for floats.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --selftest",
        "checks": [
            {"property": p["id"],
             "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
             "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
             "evidence_file": "evidence/%s.json" % p["id"],
             "technique": TECH, "level": "model_checking", "level_note": NOTE}
            for p in props if p["id"] not in NOT
        ],
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()],
        "notes": "No hooks: the code in /repo is imported as it is; only pulp, cspy, the clock and randomness are replaced by their contracts.",
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
