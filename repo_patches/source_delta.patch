From 50f5715100f65ac6474e1db1e618dda7c75b15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:21 +0000
Subject: [PATCH 01/28] fix: count service times in the duration resource of
 the cspy subproblem

---
 vrpy/subproblem_cspy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 789f044..7cf01f2 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -360,11 +360,12 @@ class _SubProblemCSPY(_SubProblemBase):
             self.sub_G.edges[i, j]["res_cost"][1] = demand_head_node
 
     def add_max_duration(self):
-        """Updates maximum travel time."""
+        """Updates maximum duration (travel times and service times)."""
         self.max_res[2] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time
+            service_time = self.sub_G.nodes[i]["service_time"]
+            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
-- 
2.43.0


From c3bcfe9c5fc046aea7b52bc351c7f0b4555d7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:21 +0000
Subject: [PATCH 02/28] fix: greedy pricing counts service times and the edge
 that closes the route

---
 vrpy/subproblem_greedy.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 70e29e1..fbb1768 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -122,13 +122,15 @@ class _SubProblemGreedy(_SubProblemBase):
 
         self._stops += 1
         self._load += self.sub_G.nodes[self._new_node]["demand"]
+        self._time += self._service_time(self._new_node)
         if forward:
             self._weight += self.sub_G.edges[self._last_node, self._new_node]["weight"]
             self._time += self.sub_G.edges[self._last_node, self._new_node]["time"]
             self._current_path.append(self._new_node)
             if self._stops == self.num_stops and self._new_node != "Sink":
                 # Finish path
-                if self._new_node in self.sub_G.predecessors("Sink"):
+                if self._can_finish(self._new_node, "Sink"):
+                    self._weight += self.sub_G.edges[self._new_node, "Sink"]["weight"]
                     self._current_path.append("Sink")
                 else:
                     self._new_node = False
@@ -141,7 +143,8 @@ class _SubProblemGreedy(_SubProblemBase):
             self._current_path.insert(0, self._new_node)
             if self._stops == self.num_stops and self._new_node != "Source":
                 # Finish path
-                if self._new_node in self.sub_G.successors("Sink"):
+                if self._can_finish("Source", self._new_node):
+                    self._weight += self.sub_G.edges["Source", self._new_node]["weight"]
                     self._current_path.insert(0, "Source")
                 else:
                     self._new_node = False
@@ -180,15 +183,22 @@ class _SubProblemGreedy(_SubProblemBase):
     def _check_duration(self, v, forward):
         """Checks time constraint."""
         if forward:
-            return (
-                self._time + self.sub_G.edges[self._last_node, v]["time"]
-                <= self.duration
-            )
+            travel_time = self.sub_G.edges[self._last_node, v]["time"]
         else:
-            return (
-                self._time + self.sub_G.edges[v, self._last_node]["time"]
-                <= self.duration
-            )
+            travel_time = self.sub_G.edges[v, self._last_node]["time"]
+        return self._time + travel_time + self._service_time(v) <= self.duration
+
+    def _service_time(self, v):
+        return self.sub_G.nodes[v].get("service_time", 0)
+
+    def _can_finish(self, tail, head):
+        """Checks if the last edge exists and respects the duration."""
+        if not self.sub_G.has_edge(tail, head):
+            return False
+        return (
+            not self.duration
+            or self._time + self.sub_G.edges[tail, head]["time"] <= self.duration
+        )
 
     """
     NOT IMPLEMENTED YET
-- 
2.43.0


From 662188cfb2625996574651150bf077d419f53554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:21 +0000
Subject: [PATCH 03/28] fix: Clarke & Wright measures the duration of merges at
 the Source correctly

---
 vrpy/clarke_wright.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/vrpy/clarke_wright.py b/vrpy/clarke_wright.py
index 911b683..c688c30 100644
--- a/vrpy/clarke_wright.py
+++ b/vrpy/clarke_wright.py
@@ -142,11 +142,8 @@ class _ClarkeWright:
             self._route[existing_node].graph["load"] += self.G.nodes[new_node]["demand"]
         # Update route duration
         if self.duration:
-            self._route[existing_node].graph["time"] += (
-                self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+            self._route[existing_node].graph["time"] += self._extra_time(
+                existing_node, new_node, depot
             )
         # Update processed vertices
         self._processed_nodes.append(new_node)
@@ -156,7 +153,23 @@ class _ClarkeWright:
         self._route[new_node] = route
         return route
 
-    def _constraints_met(self, existing_node, new_node):
+    def _extra_time(self, existing_node, new_node, depot):
+        """Increase in duration when new_node is inserted next to the depot."""
+        if depot == "Source":
+            return (
+                self.G.edges["Source", new_node]["time"]
+                + self.G.nodes[new_node]["service_time"]
+                + self.G.edges[new_node, existing_node]["time"]
+                - self.G.edges["Source", existing_node]["time"]
+            )
+        return (
+            self.G.edges[existing_node, new_node]["time"]
+            + self.G.nodes[new_node]["service_time"]
+            + self.G.edges[new_node, "Sink"]["time"]
+            - self.G.edges[existing_node, "Sink"]["time"]
+        )
+
+    def _constraints_met(self, existing_node, new_node, depot="Sink"):
         """Tests if new_node can be merged in route without violating constraints."""
         route = self._route[existing_node]
         # test if new_node already in route
@@ -171,13 +184,8 @@ class _ClarkeWright:
                 return False
         # test duration constraints
         if self.duration:
-            # this code assumes the times to go from the Source and to the Sink are equal
             if (
-                route.graph["time"]
-                + self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+                route.graph["time"] + self._extra_time(existing_node, new_node, depot)
                 > self.duration
             ):
                 return False
@@ -211,7 +219,7 @@ class _ClarkeWright:
             not merged
             and j in self.G.predecessors(i)
             and i not in self._processed_nodes  # 1
-            and self._constraints_met(j, i)  # 2
+            and self._constraints_met(j, i, "Source")  # 2
             and j in self._route[j].successors("Source")  # 3a
         ):
             self._merge_route(j, i, "Source")
-- 
2.43.0


From 5551bca65fb724b5a3a0aad19274220f6e8eed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:53 +0000
Subject: [PATCH 04/28] fix: solve can be called again, state of a previous
 call does not leak

---
 vrpy/vrp.py | 95 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 36 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 11a0690..0675890 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -107,6 +107,7 @@ class VehicleRoutingProblem:
         self.drop_penalty = drop_penalty
         self.fixed_cost = fixed_cost
         self.num_vehicles = num_vehicles if num_vehicles is not None else []
+        self._num_vehicles = []
         self._num_vehicles_schedule = None
         self.use_all_vehicles = use_all_vehicles
         self.periodic = periodic
@@ -138,6 +139,7 @@ class VehicleRoutingProblem:
         self._lower_bound = []
         # Parameters for initial solution and preprocessing
         self._max_capacity: int = None
+        self._max_num_stops: int = None
         self._vehicle_types: Union[List, int] = None
         self._initial_routes = []
         self._preassignments = []
@@ -239,23 +241,50 @@ class VehicleRoutingProblem:
         if self._pricing_strategy == "Hyper":
             self.hyper_heuristic = _HyperHeuristic()
         self._start_time = time()
-        if preassignments:
-            self._preassignments = preassignments
-        if initial_routes:
-            self._initial_routes = initial_routes
-        # If only one type of vehicle, some formatting is done
-        if not self.mixed_fleet:
-            self._format()
-        # Pre-processing
-        self._pre_solve()
         if self._heuristic_only:
-            # return solution found with Clarke & Wright heuristic
-            self._solve_with_clarke_wright()
-        else:
-            # Initialization
-            self._initialize(solver)
-            # Column generation procedure
-            self._solve(dive, solver)
+            check_clarke_wright_compatibility(
+                self.time_windows,
+                self.pickup_delivery,
+                self.distribution_collection,
+                self.mixed_fleet,
+                self.periodic,
+            )
+        # Forget what a previous call to solve has computed
+        self._reset()
+        self._preassignments = preassignments if preassignments else []
+        self._initial_routes = initial_routes if initial_routes else []
+        # Work on a copy : the input graph is left as is
+        input_graph = self.G
+        self.G = input_graph.to_directed()
+        try:
+            # If only one type of vehicle, some formatting is done
+            if not self.mixed_fleet:
+                self._format()
+            # Pre-processing
+            self._pre_solve()
+            if self._heuristic_only:
+                # return solution found with Clarke & Wright heuristic
+                self._solve_with_clarke_wright()
+            else:
+                # Initialization
+                self._initialize(solver)
+                # Column generation procedure
+                self._solve(dive, solver)
+        finally:
+            self.G = input_graph
+
+    def _reset(self):
+        """Resets everything that is computed by solve."""
+        self.routes = []
+        self._iteration = 0
+        self._no_improvement = 0
+        self._lower_bound = []
+        self._dropped_nodes = []
+        self._best_value = None
+        self._best_routes = {}
+        self._best_routes_vehicle_type = {}
+        self._best_routes_as_graphs = []
+        self._schedule = None
 
     @property
     def best_routes_type(self):
@@ -383,8 +412,8 @@ class VehicleRoutingProblem:
         # Check arrival times
         for k1, v1 in self.arrival_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
-                assert v2 <= self.G.nodes[k2]["upper"]
+                assert self._H.nodes[k2]["lower"] <= v2
+                assert v2 <= self._H.nodes[k2]["upper"]
 
     @property
     def departure_time(self):
@@ -412,7 +441,7 @@ class VehicleRoutingProblem:
         # Check departure times
         for k1, v1 in self.departure_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
+                assert self._H.nodes[k2]["lower"] <= v2
                 # Upper TW should not be checked as lower + service_time > upper
                 # in many cases. Also not enforced at the subproblem level.
                 # assert v2 <= self.G.nodes[k2]["upper"]
@@ -461,7 +490,7 @@ class VehicleRoutingProblem:
         check_feasibility(
             load_capacity=self.load_capacity, G=self.G, duration=self.duration
         )
-        self.num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(
+        self._num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(
             periodic=self.periodic, num_vehicles=self.num_vehicles
         )
         # Lock preassigned routes
@@ -471,11 +500,12 @@ class VehicleRoutingProblem:
         # Remove infeasible arcs
         self._prune_graph()
         # Compute upper bound on number of stops as knapsack problem
+        self._max_num_stops = self.num_stops
         if self.load_capacity and not self.pickup_delivery:
             num_stops = get_num_stops_upper_bound(
                 self.G, self._max_capacity, self.num_stops, self.distribution_collection
             )
-            self.num_stops = num_stops
+            self._max_num_stops = num_stops
             logger.info("new upper bound : max num stops = %s" % num_stops)
         # Set empty route cost if use_all_vehicles = True
         if self.use_all_vehicles:
@@ -498,7 +528,7 @@ class VehicleRoutingProblem:
             self._routes_with_node,
             self._routes,
             self.drop_penalty,
-            self.num_vehicles,
+            self._num_vehicles,
             self.use_all_vehicles,
             self.periodic,
             self.minimize_global_span,
@@ -797,7 +827,7 @@ class VehicleRoutingProblem:
                 self._routes,
                 vehicle_type,
                 route,
-                self.num_stops,
+                self._max_num_stops,
                 self.load_capacity,
                 self.duration,
                 self.time_windows,
@@ -815,7 +845,7 @@ class VehicleRoutingProblem:
                 self._routes,
                 vehicle_type,
                 route,
-                self.num_stops,
+                self._max_num_stops,
                 self.load_capacity,
                 self.duration,
                 self.time_windows,
@@ -834,7 +864,7 @@ class VehicleRoutingProblem:
                 self._routes,
                 vehicle_type,
                 route,
-                self.num_stops,
+                self._max_num_stops,
                 self.load_capacity,
                 self.duration,
                 self.time_windows,
@@ -848,18 +878,11 @@ class VehicleRoutingProblem:
 
     def _solve_with_clarke_wright(self):
         # return Clarke Wright solution
-        check_clarke_wright_compatibility(
-            self.time_windows,
-            self.pickup_delivery,
-            self.distribution_collection,
-            self.mixed_fleet,
-            self.periodic,
-        )
         alg = _ClarkeWright(
             self.G,
             self.load_capacity,
             self.duration,
-            self.num_stops,
+            self._max_num_stops,
         )
         alg.run()
         self._best_routes = dict(
@@ -898,7 +921,7 @@ class VehicleRoutingProblem:
                     self.G,
                     self.load_capacity,
                     self.duration,
-                    self.num_stops,
+                    self._max_num_stops,
                     alpha,
                     # beta,
                     # gamma,
@@ -914,7 +937,7 @@ class VehicleRoutingProblem:
             )
 
             # Run greedy algorithm if possible
-            alg = _Greedy(self.G, self.load_capacity, self.num_stops, self.duration)
+            alg = _Greedy(self.G, self.load_capacity, self._max_num_stops, self.duration)
             alg.run()
             logger.info(
                 "Greedy solution found with value %s and %s vehicles"
@@ -923,7 +946,7 @@ class VehicleRoutingProblem:
             self._initial_routes += alg.best_routes
 
             # TO DO: Run heuristics from VeRyPy for the CVRP
-            # if not self.num_stops and not self.duration:
+            # if not self._max_num_stops and not self.duration:
 
         # If pickup and delivery, initial routes are Source-pickup-delivery-Sink
         elif self.pickup_delivery:
-- 
2.43.0


From d6ff6e70099780ca7e06ee6fc42b23d22ef57d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:33 +0000
Subject: [PATCH 05/28] fix: a cspy column is a duplicate only if the vehicle
 type is the same

---
 vrpy/subproblem_cspy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 7cf01f2..7dd30ee 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -270,7 +270,9 @@ class _SubProblemCSPY(_SubProblemBase):
                 logger.debug(alg.path)
                 path_len = len(alg.path)
                 if not any(
-                    list(new_route.edges()) == list(r.edges()) for r in self.routes
+                    list(new_route.edges()) == list(r.edges())
+                    and r.graph["vehicle_type"] == self.vehicle_type
+                    for r in self.routes
                 ):
                     more_routes = True
                     self.routes.append(new_route)
-- 
2.43.0


From 3811f5a2afa0c38247764de21650fc1c3540e689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:33 +0000
Subject: [PATCH 06/28] fix: initial and locked routes get a vehicle type that
 carries them, at its cost

---
 vrpy/vrp.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 0675890..5f57f59 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -979,17 +979,9 @@ class VehicleRoutingProblem:
             total_cost = 0
             G = DiGraph(name=route_id)
             edges = list(zip(r[:-1], r[1:]))
-            for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][0]
-                G.add_edge(i, j, cost=edge_cost)
-                total_cost += edge_cost
-            G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
-                    if (
-                        sum(self.G.nodes[v]["demand"] for v in r)
-                        <= self.load_capacity[k]
-                    ):
+                    if self._get_max_load(r) <= self.load_capacity[k]:
                         G.graph["vehicle_type"] = k
                         break
             else:
@@ -998,6 +990,11 @@ class VehicleRoutingProblem:
                 raise ValueError(
                     "Could not find initial feasible solution. Check loading capacities."
                 )
+            for (i, j) in edges:
+                edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                G.add_edge(i, j, cost=edge_cost)
+                total_cost += edge_cost
+            G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
@@ -1005,6 +1002,25 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _get_max_load(self, route):
+        """Returns the largest load on board along the route."""
+        nodes = self._H.nodes
+        total_demand = sum(nodes[v]["demand"] for v in route)
+        if self.pickup_delivery:
+            load = 0
+        elif self.distribution_collection:
+            load = total_demand
+        else:
+            return total_demand
+        max_load = load
+        for v in route:
+            if self.pickup_delivery:
+                load += nodes[v]["demand"]
+            else:
+                load += nodes[v]["collect"] - nodes[v]["demand"]
+            max_load = max(max_load, load)
+        return max_load
+
     def _lock(self):
         """
         Processes preassigned routes and edges.
@@ -1169,7 +1185,7 @@ class VehicleRoutingProblem:
                 for k in range(self._vehicle_types):
                     # If different vehicles, the cheapest feasible one is accounted for
                     cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = sum(self._H.nodes[i]["demand"] for i in route)
+                    load = self._get_max_load(route)
                     if cost < best_cost:
                         if self.load_capacity:
                             if load <= self.load_capacity[k]:
-- 
2.43.0


From 9019aaed2216cc82a8f72fa2c6b5dc57d8bff8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:33 +0000
Subject: [PATCH 07/28] fix: one visit per day in the schedule also for
 customers without demand

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index d25bef5..a2eb8e2 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -84,7 +84,7 @@ class _Schedule:
         # at most one visit per day per customer
         for t in range(self.time_span):
             for v in self.G.nodes():
-                if self.G.nodes[v]["demand"] > 0:
+                if v not in ["Source", "Sink"]:
                     self.prob += (
                         pulp.lpSum(
                             [self.y[r][t] for r in self.routes if v in self.routes[r]]
-- 
2.43.0


From 572dbf8559650f9dcbe40fb309f2c355b8eada08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:33 +0000
Subject: [PATCH 08/28] fix: BestPaths does not divide by zero when all weights
 are equal

---
 vrpy/subproblem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index 308609e..cfabbb7 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -202,8 +202,11 @@ class _SubProblemBase:
         min_weight = min(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
         for edge in self.G.edges(data=True):
             edge[2]["pos_weight"] = (
-                -max_weight - min_weight + 2 * edge[2]["weight"]
-            ) / (max_weight - min_weight)
+                (-max_weight - min_weight + 2 * edge[2]["weight"])
+                / (max_weight - min_weight)
+                if max_weight > min_weight
+                else 0
+            )
             edge[2]["pos_weight"] = max(0, edge[2]["pos_weight"])
         # Compute beta shortest paths
         best_paths = list(
-- 
2.43.0


From b161d60689b89eece5e3e50b7f1f66479da8fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:33 +0000
Subject: [PATCH 09/28] fix: the duration feasibility check counts the service
 time

---
 vrpy/checks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index e4fbf6d..5b76fc4 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -208,7 +208,11 @@ def check_feasibility(
                 shortest_path_from = shortest_path_length(
                     G, source=v, target="Sink", weight="time"
                 )
-                shortest_trip = shortest_path_from + shortest_path_to
+                shortest_trip = (
+                    shortest_path_from
+                    + shortest_path_to
+                    + G.nodes[v].get("service_time", 0)
+                )
                 if shortest_trip > duration:
                     raise ValueError(
                         "Node %s not reachable with duration constraints" % v
-- 
2.43.0


From c8d7a429eacef4b1a516ed7f5c525f6dcc6dbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:14 +0000
Subject: [PATCH 10/28] fix: columns of the LP subproblem do not contain
 subtours

---
 vrpy/subproblem_lp.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 73a38a3..75f22f2 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -55,13 +55,17 @@ class _SubProblemLP(_SubProblemBase):
         route_id = len(self.routes) + 1
         new_route = DiGraph(name=route_id)
         self.total_cost = 0
-        for (i, j) in self.sub_G.edges():
-            if pulp.value(self.x[(i, j)]) > 0.5:
-                edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
-                self.total_cost += edge_cost
-                new_route.add_edge(i, j, cost=edge_cost)
-                if i != "Source":
-                    self.routes_with_node[i].append(new_route)
+        # The solution may contain subtours: keep the path from Source to Sink
+        solution = DiGraph(
+            (i, j) for (i, j) in self.sub_G.edges() if pulp.value(self.x[(i, j)]) > 0.5
+        )
+        path = shortest_path(solution, "Source", "Sink")
+        for (i, j) in zip(path[:-1], path[1:]):
+            edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
+            self.total_cost += edge_cost
+            new_route.add_edge(i, j, cost=edge_cost)
+            if i != "Source":
+                self.routes_with_node[i].append(new_route)
 
         new_route.graph["cost"] = self.total_cost
         new_route.graph["vehicle_type"] = self.vehicle_type
-- 
2.43.0


From b193c188867edb3113881db644a4380961f58d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:14 +0000
Subject: [PATCH 11/28] fix: big-M of the time windows is large enough

---
 vrpy/subproblem_lp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 75f22f2..32e5eb4 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -170,7 +170,12 @@ class _SubProblemLP(_SubProblemBase):
 
     def _add_time_windows(self):
         # Big-M definition
-        M = self.sub_G.nodes["Sink"]["upper"]
+        M = max(
+            self.sub_G.nodes[i]["upper"]
+            + self.sub_G.nodes[i]["service_time"]
+            + self.sub_G.edges[i, j]["time"]
+            for (i, j) in self.sub_G.edges()
+        )
         # Add varibles
         self.t = pulp.LpVariable.dicts(
             "t", self.sub_G.nodes(), lowBound=0, cat=pulp.LpContinuous
-- 
2.43.0


From f5257a6e22de3176951d2f26a7c28d23b8de76da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:14 +0000
Subject: [PATCH 12/28] fix: heuristic_only returns the preassigned routes as
 well

---
 vrpy/vrp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 5f57f59..2019577 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -894,6 +894,7 @@ class VehicleRoutingProblem:
                 [0 for r in range(len(alg.best_routes))],
             )
         )
+        self._add_preassigned_routes(route_id=len(alg.best_routes))
 
     # Preprocessing #
 
@@ -1177,6 +1178,10 @@ class VehicleRoutingProblem:
             self._best_routes_vehicle_type[route_id] = route.graph["vehicle_type"]
             route_id += 1
         # Merge with preassigned complete routes
+        self._add_preassigned_routes(route_id)
+
+    def _add_preassigned_routes(self, route_id):
+        """Adds the preassigned complete routes to the best routes."""
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-- 
2.43.0


From eeda41d3e59cbbbd1e70849596dccc9064a2cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:14 +0000
Subject: [PATCH 13/28] fix: drop_penalty does not fail when every customer is
 preassigned

---
 vrpy/master_solve_pulp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 3bcbe97..53bc086 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -30,6 +30,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.dummy = {}  # dummy variable
         self.dummy_bound = {}  # dummy variable for vehicle bound cost
         self.makespan = {}  # maximum global span
+        self.dropped_nodes = []
         # constrs
         self.set_covering_constrs = {}
         self.vehicle_bound_constrs = {}
-- 
2.43.0


From 75cfe3e2fb417b1c0e2ddd40cea14fe68b0a097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:14 +0000
Subject: [PATCH 14/28] fix: minimize_global_span works with cspy and with more
 than 74 routes

---
 vrpy/master_solve_pulp.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 53bc086..d879056 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -112,16 +112,22 @@ class _MasterSolvePulp(_MasterProblemBase):
         # global span duals
         if self.minimize_global_span:
             for route in self.routes:
+                constr_name = "makespan_%s" % self._get_route_number(route)
                 if not relax:
                     duals["makespan_%s" % route.graph["name"]] = self.prob.constraints[
-                        "makespan_%s" % route.graph["name"]
+                        constr_name
                     ].pi
                 else:
                     duals["makespan_%s" % route.graph["name"]] = relax.constraints[
-                        "makespan_%s" % route.graph["name"]
+                        constr_name
                     ].pi
         return duals
 
+    @staticmethod
+    def _get_route_number(route):
+        """cspy routes are called 'number_elem' or 'number_non-elem'."""
+        return int(str(route.graph["name"]).split("_")[0])
+
     def get_total_cost_and_routes(self, relax: bool):
         best_routes = []
         for r in self.routes:
@@ -350,7 +356,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     for k in range(len(self.num_vehicles))
                     if route.graph["vehicle_type"] == k
                 )
-                + route.graph["cost"] * self.makespan_constr[route.graph["name"]]
+                + route.graph["cost"] * self.makespan_constr[self._get_route_number(route)]
             ),
         )
 
@@ -409,7 +415,7 @@ class _MasterSolvePulp(_MasterProblemBase):
             cost = 0
         else:
             # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
-            constraints = [self.makespan_constr[x] for x in range(1, 75)]
+            constraints = [self.makespan_constr[x] for x in range(1, self._n_columns)]
             cost = 1
         self.makespan = pulp.LpVariable(
             "makespan",
-- 
2.43.0


From a3fd2129702104ad4b3d95f5e1d2e1e1237c1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:07 +0000
Subject: [PATCH 15/28] fix: no subproblem is solved without limit once the
 time limit has elapsed

---
 vrpy/subproblem_cspy.py | 2 ++
 vrpy/subproblem_lp.py   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 7dd30ee..7cee841 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -205,6 +205,8 @@ class _SubProblemCSPY(_SubProblemBase):
         """
         if not self.run_subsolve:
             return self.routes, False
+        if time_limit is not None and time_limit <= 0:
+            return self.routes, False
 
         self.formulate()
         logger.debug("resources = {}".format(self.resources))
diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 32e5eb4..a176cb0 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -27,7 +27,7 @@ class _SubProblemLP(_SubProblemBase):
     def solve(self, time_limit, exact=True):
         if not self.run_subsolve:
             return self.routes, False
-        if time_limit and time_limit <= 0:
+        if time_limit is not None and time_limit <= 0:
             return self.routes, False
 
         self._formulate()
-- 
2.43.0


From a791e81dc282ea69c777c358562290e4e435c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:07 +0000
Subject: [PATCH 16/28] fix: pickup and delivery uses the exact pricing
 strategy, as announced

---
 vrpy/vrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 2019577..e81c5dc 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -486,6 +486,8 @@ class VehicleRoutingProblem:
             pricing_strategy=self._pricing_strategy,
             G=self.G,
         )
+        if self.pickup_delivery:
+            self._pricing_strategy = "Exact"
         # Check feasibility
         check_feasibility(
             load_capacity=self.load_capacity, G=self.G, duration=self.duration
-- 
2.43.0


From 64120235fe0e949fa85d7309a96f37bd402766df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:07 +0000
Subject: [PATCH 17/28] fix: diving returns an integer solution

---
 vrpy/master_solve_pulp.py | 5 +++++
 vrpy/vrp.py               | 8 +++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index d879056..69fe9e4 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -69,6 +69,11 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.prob.resolve()
         return self.get_duals(), self.prob.objective.value()
 
+    def undo_dive(self):
+        """Removes the constraints added by the diving heuristic."""
+        for name in [c for c in self.prob.constraints if c.startswith("fix_")]:
+            del self.prob.constraints[name]
+
     def update(self, new_route):
         """Add new column."""
         if self.minimize_global_span:
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index e81c5dc..3b0816d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -543,11 +543,9 @@ class VehicleRoutingProblem:
             self._dive = True
             self._more_routes = True
             self._column_generation()
-            (
-                self._best_value,
-                self._best_routes_as_graphs,
-            ) = self.masterproblem.get_total_cost_and_routes(relax=True)
-        elif len(self.G.nodes()) > 2:
+            # What was fixed while diving may have no integer completion
+            self.masterproblem.undo_dive()
+        if len(self.G.nodes()) > 2:
             # Solve as MIP
             _, _ = self.masterproblem.solve(
                 relax=False, time_limit=self._get_time_remaining(mip=True)
-- 
2.43.0


From 1de175e62a8db9138f50c57356546d84c493dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:07 +0000
Subject: [PATCH 18/28] fix: Hyper runs the exact algorithm before it stops,
 like the other strategies

---
 vrpy/vrp.py | 51 ++++++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 3b0816d..1d325be 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -654,41 +654,22 @@ class VehicleRoutingProblem:
     ):
         """Solves pricing problem with input heuristic"""
         more_columns = False
-        if self._pricing_strategy == "Hyper":
-            if pricing_strategy == "BestPaths":
-                more_columns = self._attempt_solve_best_paths(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "BestEdges1":
-                more_columns = self._attempt_solve_best_edges1(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "BestEdges2":
-                more_columns = self._attempt_solve_best_edges2(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "Exact":
-                more_columns = self._attempt_solve_exact(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-        # old approach
-        else:
-            if pricing_strategy == "BestPaths":
-                more_columns = self._attempt_solve_best_paths(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "BestEdges1":
-                more_columns = self._attempt_solve_best_edges1(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            elif pricing_strategy == "BestEdges2":
-                more_columns = self._attempt_solve_best_edges2(
-                    vehicle=vehicle, duals=duals, route=route
-                )
-            if pricing_strategy == "Exact" or not more_columns:
-                more_columns = self._attempt_solve_exact(
-                    vehicle=vehicle, duals=duals, route=route
-                )
+        if pricing_strategy == "BestPaths":
+            more_columns = self._attempt_solve_best_paths(
+                vehicle=vehicle, duals=duals, route=route
+            )
+        elif pricing_strategy == "BestEdges1":
+            more_columns = self._attempt_solve_best_edges1(
+                vehicle=vehicle, duals=duals, route=route
+            )
+        elif pricing_strategy == "BestEdges2":
+            more_columns = self._attempt_solve_best_edges2(
+                vehicle=vehicle, duals=duals, route=route
+            )
+        if pricing_strategy == "Exact" or not more_columns:
+            more_columns = self._attempt_solve_exact(
+                vehicle=vehicle, duals=duals, route=route
+            )
         return more_columns
 
     def _attempt_solve_best_paths(self, vehicle=None, duals=None, route=None):
-- 
2.43.0


From 8031aae07f68e601fbf2dc6f193220c9ddb54507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:07 +0000
Subject: [PATCH 19/28] fix: Hyper does not divide by zero when no column is
 active

---
 vrpy/hyper_heuristic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/hyper_heuristic.py b/vrpy/hyper_heuristic.py
index 7350c49..5cd2c3d 100644
--- a/vrpy/hyper_heuristic.py
+++ b/vrpy/hyper_heuristic.py
@@ -322,7 +322,8 @@ class _HyperHeuristic:
     def _update_params_wgtavr(self):
         "Updates params for Weighted average performance measure"
         sum_exp = sum(self.exp.values())
-        active = sum(self.active_columns.values())
+        # No column may be active if customers can be dropped
+        active = max(sum(self.active_columns.values()), 1)
         for heuristic in self.heuristic_options:
             # if heuristic has not been applied, let it be self.inf
             if self.iterations[heuristic] > 0:
-- 
2.43.0


From bd511b75861e85f5749a77373959b5497e31ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:07 +0000
Subject: [PATCH 20/28] fix: preassigned routes use vehicles of the fleet

---
 vrpy/vrp.py | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 1d325be..fcd6717 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -493,7 +493,7 @@ class VehicleRoutingProblem:
             load_capacity=self.load_capacity, G=self.G, duration=self.duration
         )
         self._num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(
-            periodic=self.periodic, num_vehicles=self.num_vehicles
+            periodic=self.periodic, num_vehicles=list(self.num_vehicles)
         )
         # Lock preassigned routes
         if self._preassignments:
@@ -1015,6 +1015,12 @@ class VehicleRoutingProblem:
             # If the route cannot be extended, remove it
             if route[0] == "Source" and route[-1] == "Sink":
                 logger.info("locking %s" % route)
+                if self._num_vehicles:
+                    # The vehicle of the locked route is not available anymore
+                    k = self._get_preassigned_vehicle_type(route)
+                    self._num_vehicles[k] -= 1
+                    if self._num_vehicles[k] < 0:
+                        raise ValueError("More preassigned routes than vehicles.")
                 self.G.remove_nodes_from(route[1:-1])
             # Otherwise, keep it and set the costs to 0
             else:
@@ -1166,22 +1172,29 @@ class VehicleRoutingProblem:
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-                edges = list(zip(route[:-1], route[1:]))
-                best_cost = 1e10
-                for k in range(self._vehicle_types):
-                    # If different vehicles, the cheapest feasible one is accounted for
-                    cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = self._get_max_load(route)
-                    if cost < best_cost:
-                        if self.load_capacity:
-                            if load <= self.load_capacity[k]:
-                                best_cost = cost
-                                self._best_routes_vehicle_type[route_id] = k
-                        else:
-                            best_cost = cost
-                            self._best_routes_vehicle_type[route_id] = k
+                self._best_routes_vehicle_type[
+                    route_id
+                ] = self._get_preassigned_vehicle_type(route)
                 route_id += 1
 
+    def _get_preassigned_vehicle_type(self, route):
+        """If different vehicles, the cheapest feasible one is accounted for."""
+        edges = list(zip(route[:-1], route[1:]))
+        best_cost = None
+        vehicle_type = None
+        for k in range(self._vehicle_types):
+            cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
+            if best_cost is None or cost < best_cost:
+                if (
+                    not self.load_capacity
+                    or self._get_max_load(route) <= self.load_capacity[k]
+                ):
+                    best_cost = cost
+                    vehicle_type = k
+        if vehicle_type is None:
+            raise ValueError("Preassigned route %s exceeds load capacity." % route)
+        return vehicle_type
+
     def _format(self):
         """Attributes are stored as singletons."""
         for (i, j) in self.G.edges():
-- 
2.43.0


From 623d7dd4efe560b71c291d70db6cf985dbab2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:56 +0000
Subject: [PATCH 21/28] fix: diving does not share its tabu list between
 problems

---
 vrpy/restricted_master_heuristics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 1ce25ed..b7bf5ff 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -35,7 +35,7 @@ class _DivingHeuristic:
         # Init current_node
         if self.current_node.parent is None:
             self.current_node.parent = relax
-        lp_node = _LPNode(self.current_node)
+        lp_node = _LPNode(self.current_node, self.current_node.tabu_list)
         constrs = {}
         while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
             non_integer_vars = [
@@ -93,6 +93,6 @@ class _DivingHeuristic:
 
 
 class _LPNode:
-    def __init__(self, parent=None, tabu_list=[]):
+    def __init__(self, parent=None, tabu_list=None):
         self.parent = parent
-        self.tabu_list = tabu_list
+        self.tabu_list = tabu_list if tabu_list is not None else []
-- 
2.43.0


From 479bc4d2d4b734e855e4d9eecc2dfd3444361772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:39 +0000
Subject: [PATCH 22/28] fix: a periodic route can be used on several days, so
 frequencies are met

---
 vrpy/master_solve_pulp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 69fe9e4..f3a9586 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -139,6 +139,9 @@ class _MasterSolvePulp(_MasterProblemBase):
             val = pulp.value(self.y[r.graph["name"]])
             if val is not None and val > 0:
                 best_routes.append(r)
+                if self.periodic and not relax:
+                    # One occurrence per use
+                    best_routes.extend([r] * (round(val) - 1))
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
                 #     shortest_path(r, "Source", "Sink"),
@@ -328,10 +331,12 @@ class _MasterSolvePulp(_MasterProblemBase):
             nodes = [n for n in route.graph["path"] if n not in ["Source", "Sink"]]
         else:
             nodes = [n for n in route.nodes() if n not in ["Source", "Sink"]]
+        # In the periodic case, a route can be used on several days
+        max_use = min(self.G.nodes[n]["frequency"] for n in nodes) if self.periodic else 1
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            upBound=max_use,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From 55c5f29f4c9ea8a4b8d6c879163c8d821a318cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:36 +0000
Subject: [PATCH 23/28] fix: best_value is the penalty when minimising the span
 and every customer is dropped

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index fcd6717..e0171a1 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -296,7 +296,7 @@ class VehicleRoutingProblem:
         if self.drop_penalty:
             penalty = self.drop_penalty * len(self._dropped_nodes)
             if self.minimize_global_span:
-                return max(self.best_routes_cost.values()) + penalty
+                return max(self.best_routes_cost.values(), default=0) + penalty
             return sum(self.best_routes_cost.values()) + penalty
         if self.minimize_global_span:
             return max(self.best_routes_cost.values())
-- 
2.43.0


From 69009d4102ce542f6b5290bae6835f498c9efdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:23 +0000
Subject: [PATCH 24/28] fix: diving failed when a fixed variable made the
 relaxation infeasible at the root

---
 vrpy/restricted_master_heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index b7bf5ff..f4e2443 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -32,9 +32,6 @@ class _DivingHeuristic:
     def run_dive(self, prob):
         tabu_list = []
         relax = prob.deepcopy()
-        # Init current_node
-        if self.current_node.parent is None:
-            self.current_node.parent = relax
         lp_node = _LPNode(self.current_node, self.current_node.tabu_list)
         constrs = {}
         while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
@@ -80,7 +77,7 @@ class _DivingHeuristic:
                 if relax.status == 1:
                     prob.extend(constrs)
                     self.current_node = lp_node
-                else:
+                elif self.current_node.parent is not None:
                     # Backtrack
                     self.current_node = self.current_node.parent
                 logger.info(
-- 
2.43.0


From 03bdfcc520c193ef58a3b68b098664d5acb26c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:15 +0000
Subject: [PATCH 25/28] fix: cspy pricing with distribution and collection does
 not count windows and service times that are not asked for

---
 vrpy/subproblem_cspy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 7cee841..0df81c0 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -55,7 +55,9 @@ class _MyREFCallback(REFCallback):
         # Upper
         b_j = self._sub_G.nodes[j]["upper"]
 
-        new_res[2] = max(new_res[2] + theta_i + travel_time_ij, a_j)
+        new_res[2] += theta_i + travel_time_ij
+        if self._time_windows:
+            new_res[2] = max(new_res[2], a_j)
 
         # time-window feasibility resource
         if not self._time_windows or (new_res[2] <= b_j):
@@ -175,7 +177,11 @@ class _SubProblemCSPY(_SubProblemBase):
             floor(len(self.sub_G.nodes()) / 2),  # stop/mono
             total_demand,  # load
             sum(
-                [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
+                [
+                    self.sub_G.edges[u, v]["time"]
+                    + self.sub_G.nodes[u]["service_time"]
+                    for u, v in self.sub_G.edges()
+                ]
             ),  # time
             1,  # time windows
             total_demand,  # pickup
-- 
2.43.0


From 51fe214f2213c905356df6ffcde2d02e89be4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:39 +0000
Subject: [PATCH 26/28] fix: periodic problems with cplex pass the time limit
 of the schedule under its name

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index a2eb8e2..2dcdd8c 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -112,7 +112,7 @@ class _Schedule:
         if self.solver == "cbc":
             self.prob.solve(pulp.PULP_CBC_CMD(msg=False, timeLimit=time_limit))
         elif self.solver == "cplex":
-            self.prob.solve(pulp.CPLEX_CMD(msg=False, timelimit=time_limit))
+            self.prob.solve(pulp.CPLEX_CMD(msg=False, timeLimit=time_limit))
         elif self.solver == "gurobi":
             gurobi_options = []
             if time_limit is not None:
-- 
2.43.0


From b391aab8d649002da2eae02825c0c1ddba9706b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:08 +0000
Subject: [PATCH 27/28] fix: the global span counts preassigned complete routes
 when customers may be dropped

---
 vrpy/vrp.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index e0171a1..fb86397 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -536,6 +536,9 @@ class VehicleRoutingProblem:
             self.minimize_global_span,
             solver,
         )
+        if self.minimize_global_span:
+            # The span is never below the cost of a preassigned complete route
+            self.masterproblem.makespan.lowBound = self._get_preassigned_span()
 
     def _solve(self, dive, solver):
         self._column_generation()
@@ -1177,6 +1180,17 @@ class VehicleRoutingProblem:
                 ] = self._get_preassigned_vehicle_type(route)
                 route_id += 1
 
+    def _get_preassigned_span(self):
+        """Largest cost of the preassigned complete routes."""
+        span = 0
+        for route in self._preassignments:
+            if route[0] == "Source" and route[-1] == "Sink":
+                k = self._get_preassigned_vehicle_type(route)
+                edges = list(zip(route[:-1], route[1:]))
+                cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
+                span = max(span, cost)
+        return span
+
     def _get_preassigned_vehicle_type(self, route):
         """If different vehicles, the cheapest feasible one is accounted for."""
         edges = list(zip(route[:-1], route[1:]))
-- 
2.43.0


From 64ab17f3d357e439e216d786a6ae6498ad50bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:36 +0000
Subject: [PATCH 28/28] fix: when minimizing the global span, a route can be
 used on several days

---
 vrpy/master_solve_pulp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index f3a9586..6d4f324 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -350,10 +350,13 @@ class _MasterSolvePulp(_MasterProblemBase):
         )
 
     def _add_route_selection_variable_for_global_span(self, route):
+        # In the periodic case, a route can be used on several days
+        nodes = [n for n in route.nodes() if n not in ["Source", "Sink"]]
+        max_use = min(self.G.nodes[n]["frequency"] for n in nodes) if self.periodic else 1
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            upBound=max_use,
             cat=pulp.LpInteger,
             e=(
                 pulp.lpSum(
-- 
2.43.0

