From 84c6b4050d53208140069815d8cd0ed1bd2c2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:02 +0000
Subject: [PATCH 01/18] fix: keep a route's fixed vehicle cost when pickling

The fixed vehicle cost was not part of the pickled state, so unpickled routes
(and solutions) reported zero fixed cost and were evaluated as too cheap.
---
 pyvrp/cpp/Route.cpp    | 2 ++
 pyvrp/cpp/Route.h      | 1 +
 pyvrp/cpp/bindings.cpp | 8 +++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 3414351..baf67ea 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -475,6 +475,7 @@ Route::Route(Schedule schedule,
              Duration startTime,
              Duration releaseTime,
              Duration slack,
+             Cost fixedVehicleCost,
              Cost prizes,
              size_t vehicleType,
              size_t numShipments)
@@ -494,6 +495,7 @@ Route::Route(Schedule schedule,
       startTime_(startTime),
       releaseTime_(releaseTime),
       slack_(slack),
+      fixedVehicleCost_(fixedVehicleCost),
       prizes_(prizes),
       vehicleType_(vehicleType),
       numShipments_(numShipments)
diff --git a/pyvrp/cpp/Route.h b/pyvrp/cpp/Route.h
index ea29650..8e1e4d9 100644
--- a/pyvrp/cpp/Route.h
+++ b/pyvrp/cpp/Route.h
@@ -333,6 +333,7 @@ public:
           Duration startTime,
           Duration releaseTime,
           Duration slack,
+          Cost fixedVehicleCost,
           Cost prizes,
           size_t vehicleType,
           size_t numShipments);
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6c2042d..f11cbc9 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -974,6 +974,7 @@ PYBIND11_MODULE(_pyvrp, m)
                                       route.startTime(),
                                       route.releaseTime(),
                                       route.slack(),
+                                      route.fixedVehicleCost(),
                                       route.prizes(),
                                       route.vehicleType(),
                                       route.numShipments());
@@ -998,9 +999,10 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Duration>(),          // start time
                     t[14].cast<pyvrp::Duration>(),          // release time
                     t[15].cast<pyvrp::Duration>(),          // slack
-                    t[16].cast<pyvrp::Cost>(),              // prizes
-                    t[17].cast<size_t>(),                   // vehicle type
-                    t[18].cast<size_t>());                  // num shipments
+                    t[16].cast<pyvrp::Cost>(),              // fixed veh cost
+                    t[17].cast<pyvrp::Cost>(),              // prizes
+                    t[18].cast<size_t>(),                   // vehicle type
+                    t[19].cast<size_t>());                  // num shipments
 
                 return route;
             }))
-- 
2.43.0


From 3d3ad02694553b5f83c3b03ccef8448262951639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:05 +0000
Subject: [PATCH 02/18] fix: keep a solution's unplanned activities when
 pickling

Unplanned activities were not part of the pickled state, so unpickled solutions
reported an empty list.
---
 pyvrp/cpp/Solution.cpp | 6 ++++--
 pyvrp/cpp/Solution.h   | 3 ++-
 pyvrp/cpp/bindings.cpp | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 940b416..5838e20 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -381,7 +381,8 @@ Solution::Solution(size_t numClients,
                    Cost prizes,
                    Cost uncollectedPrizes,
                    Duration timeWarp,
-                   Routes routes)
+                   Routes routes,
+                   Unplanned unplanned)
     : numClients_(numClients),
       numShipments_(numShipments),
       numMissingClients_(numMissingClients),
@@ -398,7 +399,8 @@ Solution::Solution(size_t numClients,
       prizes_(prizes),
       uncollectedPrizes_(uncollectedPrizes),
       timeWarp_(timeWarp),
-      routes_(std::move(routes))
+      routes_(std::move(routes)),
+      unplanned_(std::move(unplanned))
 {
 }
 
diff --git a/pyvrp/cpp/Solution.h b/pyvrp/cpp/Solution.h
index e05ce6f..ff26f46 100644
--- a/pyvrp/cpp/Solution.h
+++ b/pyvrp/cpp/Solution.h
@@ -280,7 +280,8 @@ public:
              Cost prizes,
              Cost uncollectedPrizes,
              Duration timeWarp,
-             Routes routes);
+             Routes routes,
+             Unplanned unplanned);
 };
 
 template <>  // specialisation for pyvrp::Solution
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index f11cbc9..e71d5cb 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1133,10 +1133,12 @@ PYBIND11_MODULE(_pyvrp, m)
                                       sol.prizes(),
                                       sol.uncollectedPrizes(),
                                       sol.timeWarp(),
-                                      sol.routes());
+                                      sol.routes(),
+                                      sol.unplanned());
             },
             [](py::tuple t) {  // __setstate__
                 using Routes = std::vector<Route>;
+                using Unplanned = std::vector<Activity>;
 
                 Solution sol(
                     t[0].cast<size_t>(),            // num clients
@@ -1155,7 +1157,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Cost>(),               // prizes
                     t[14].cast<pyvrp::Cost>(),               // uncollected
                     t[15].cast<pyvrp::Duration>(),           // time warp
-                    t[16].cast<Routes>());                   // routes
+                    t[16].cast<Routes>(),                    // routes
+                    t[17].cast<Unplanned>());                // unplanned
 
                 return sol;
             }))
-- 
2.43.0


From 83573b2b4cf5dd46c489f2e16bad7d625560b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:03 +0000
Subject: [PATCH 03/18] fix: keep routes and groups alive while iterating over
 them

The iterators did not keep the object they iterate over alive, so iterating
over a temporary route or client group read freed memory.
---
 pyvrp/cpp/bindings.cpp        | 4 ++--
 pyvrp/cpp/search/bindings.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index e71d5cb..c7e180b 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -477,7 +477,7 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](ClientGroup const &group)
             { return py::make_iterator(group.begin(), group.end()); },
-            py::return_value_policy::reference_internal)
+            py::keep_alive<0, 1>())
         .def(
             "__str__",
             [](ClientGroup const &group) { return group.name; },
@@ -944,7 +944,7 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
-            py::return_value_policy::reference_internal)
+            py::keep_alive<0, 1>())
         .def(
             "__getitem__",
             [](Route const &route, int idx)
diff --git a/pyvrp/cpp/search/bindings.cpp b/pyvrp/cpp/search/bindings.cpp
index a87d4d8..1b22445 100644
--- a/pyvrp/cpp/search/bindings.cpp
+++ b/pyvrp/cpp/search/bindings.cpp
@@ -685,7 +685,7 @@ PYBIND11_MODULE(_search, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
-            py::return_value_policy::reference_internal)
+            py::keep_alive<0, 1>())
         .def("__len__", &Route::size)
         .def("__str__",
              [](Route const &route)
-- 
2.43.0


From 11c60ea7c2cb071bd166fcb4b9aba4f39f5c1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:27 +0000
Subject: [PATCH 04/18] fix: do not count waiting before a trip twice in its
 end times

DurationSegment's end_early() and end_late() added the wait between the end of
the previous trip and the start of the current trip, which the start times they
add it to already include.
---
 pyvrp/cpp/DurationSegment.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.h b/pyvrp/cpp/DurationSegment.h
index 8853bdf..c2f484d 100644
--- a/pyvrp/cpp/DurationSegment.h
+++ b/pyvrp/cpp/DurationSegment.h
@@ -298,16 +298,16 @@ Duration DurationSegment::startLate() const
 
 Duration DurationSegment::endEarly() const
 {
-    auto const tripDuration = duration() - cumDuration_;
+    // Waiting between the end of the previous trip and our start is not part of
+    // the current trip: that is already accounted for in startEarly().
     auto const tripTimeWarp = timeWarp() - cumTimeWarp_;
-    return startEarly() + tripDuration - tripTimeWarp;
+    return startEarly() + duration_ - tripTimeWarp;
 }
 
 Duration DurationSegment::endLate() const
 {
-    auto const tripDuration = duration() - cumDuration_;
     auto const tripTimeWarp = timeWarp() - cumTimeWarp_;
-    auto const netDuration = tripDuration - tripTimeWarp;
+    auto const netDuration = duration_ - tripTimeWarp;
     return netDuration > std::numeric_limits<Duration>::max() - startLate()
                ? std::numeric_limits<Duration>::max()
                : startLate() + netDuration;
-- 
2.43.0


From 50c63c395ef8c37dae054ce04c4dc9f5db3917c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:57 +0000
Subject: [PATCH 05/18] fix: leave search route unchanged when a depot
 insertion is rejected

search::Route::insert() stored the new depot before checking the vehicle's trip
limit, so a rejected insertion left the route with a depot too many.
---
 pyvrp/cpp/search/Route.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index a5e992e..6bb7bcb 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -95,6 +95,10 @@ void Route::insert(size_t idx, Node *node)
     {
     case Activity::ActivityType::DEPOT:  // insert copy into owned memory
     {
+        if (numTrips() >= maxTrips())  // check first, so that we do not modify
+            throw std::invalid_argument(  // anything if this fails.
+                "Vehicle cannot perform this many trips.");
+
         if (depots_.size() == depots_.capacity())  // then we reallocate and
         {                                          // must update references
             depots_.reserve(depots_.size() + 1);
@@ -110,9 +114,6 @@ void Route::insert(size_t idx, Node *node)
         break;
     }
 
-    if (numTrips() > maxTrips())
-        throw std::invalid_argument("Vehicle cannot perform this many trips.");
-
     nodes.insert(nodes.begin() + idx, node);
     node->assign(this, idx, nodes[idx - 1]->trip());
 
-- 
2.43.0


From 6ad1e381dd4fd998b31c395a56bbb2f94c947bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:11 +0000
Subject: [PATCH 06/18] fix: evaluate symmetric swaps of a client and a
 shipment with equal indices

---
 pyvrp/cpp/search/Swap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvrp/cpp/search/Swap.h b/pyvrp/cpp/search/Swap.h
index 6a218bf..aa54051 100644
--- a/pyvrp/cpp/search/Swap.h
+++ b/pyvrp/cpp/search/Swap.h
@@ -104,7 +104,8 @@ std::pair<Cost, bool> Swap<N, M>::evaluate(Route::Node *U,
         return std::make_pair(0, false);
 
     if constexpr (N == M)  // symmetric, so only have to evaluate this once
-        if (U->idx() >= V->idx())
+        if (std::make_pair(U->idx(), U->type())
+            >= std::make_pair(V->idx(), V->type()))
             return std::make_pair(0, false);
 
     Cost deltaCost = 0;
-- 
2.43.0


From 8683547e644b76bb2e759082ebfb812e36467fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:13 +0000
Subject: [PATCH 07/18] fix: count time warp due to release times as existing
 time warp against the maximum duration

---
 pyvrp/cpp/DurationSegment.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.h b/pyvrp/cpp/DurationSegment.h
index c2f484d..c73281c 100644
--- a/pyvrp/cpp/DurationSegment.h
+++ b/pyvrp/cpp/DurationSegment.h
@@ -271,12 +271,13 @@ Duration DurationSegment::duration() const
 
 Duration DurationSegment::timeWarp(Duration maxDuration) const
 {
-    auto const timeWarp = cumTimeWarp_ + timeWarp_;
+    auto const timeWarp
+        = cumTimeWarp_ + timeWarp_
+          // Additional time warp from having to wait until release time.
+          + std::max<Duration>(releaseTime_ - startLate_, 0);
     auto const netDuration = duration() - timeWarp;
 
     return timeWarp
-           // Additional time warp from having to wait until release time.
-           + std::max<Duration>(releaseTime_ - startLate_, 0)
            // Max duration constraint applies only to net route duration,
            // subtracting existing time warp. Use ternary to avoid underflow.
            + (netDuration > maxDuration ? netDuration - maxDuration : 0);
-- 
2.43.0


From 64d39ca9275dce8f746ad10d638f2e7e13a0f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:37 +0000
Subject: [PATCH 08/18] fix: minimise_fleet never asks for an empty fleet

---
 pyvrp/minimise_fleet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvrp/minimise_fleet.py b/pyvrp/minimise_fleet.py
index 143a84e..91e109d 100644
--- a/pyvrp/minimise_fleet.py
+++ b/pyvrp/minimise_fleet.py
@@ -82,7 +82,8 @@ def minimise_fleet(
         if best.num_routes() < data.num_vehicles:
             # Then we can make a bigger jump because more than one vehicle of
             # the feasible fleet was unused.
-            feas_fleet = fleet.replace(num_available=best.num_routes())
+            num_available = max(best.num_routes(), 1)
+            feas_fleet = fleet.replace(num_available=num_available)
 
     return feas_fleet
 
@@ -95,8 +96,9 @@ def _lower_bound(data: ProblemData) -> int:
     # details.
 
     # Computes a bound based on packing delivery or pickup demands in the given
-    # vehicles over all load dimensions. The strongest bound is returned.
-    bound = 0
+    # vehicles over all load dimensions. The strongest bound is returned. A
+    # fleet always has at least one vehicle.
+    bound = 1
     for dim in range(data.num_load_dimensions):
         delivery = sum(c.delivery[dim] for c in data.clients())
         pickup = sum(c.pickup[dim] for c in data.clients())
-- 
2.43.0


From 705bf7dfcd0bd2edd892495bb076cab97cf21558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:09 +0000
Subject: [PATCH 09/18] fix: building a model from data does not share its
 mutable groups

---
 pyvrp/Model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvrp/Model.py b/pyvrp/Model.py
index d2323f0..3c6831f 100644
--- a/pyvrp/Model.py
+++ b/pyvrp/Model.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import copy
 from typing import TYPE_CHECKING, Sequence
 from warnings import warn
 
@@ -207,7 +208,7 @@ class Model:
         self._locations = locs
         self._clients = data.clients()
         self._depots = data.depots()
-        self._groups = data.groups()
+        self._groups = [copy(group) for group in data.groups()]  # mutable
         self._shipments = data.shipments()
         self._profiles = profiles
         self._vehicle_types = data.vehicle_types()
-- 
2.43.0


From 076810b517ea10645c7a3db771790a761c9ccc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:32 +0000
Subject: [PATCH 10/18] fix: read pickup and delivery sections with
 non-integral values

---
 pyvrp/read.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index e11bea3..7719095 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -356,9 +356,10 @@ class _InstanceParser:
         # Round demand, time windows, and service duration. Skip the pickup
         # and delivery index fields; we need those unchanged.
         shipments = self.instance["pickup_and_delivery"]
-        shipments[:, :4] = self.round_func(shipments[:, :4])
+        values = self.round_func(shipments[:, :4])
+        indices = shipments[:, 4:].astype(np.int64)
 
-        return shipments
+        return np.hstack([values, indices])
 
 
 class _ProblemDataBuilder:
-- 
2.43.0


From b89eed4dab713890b9f27323fb8f085dad79ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:32 +0000
Subject: [PATCH 11/18] fix: pair pickups and deliveries by location index with
 several depots

---
 pyvrp/read.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index 7719095..baaaa13 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -575,7 +575,6 @@ class _ProblemDataBuilder:
         return [ClientGroup(group) for group in groups]
 
     def _shipments(self) -> list[Shipment]:
-        num_depots = self.parser.num_depots
         data = self.parser.shipments()
 
         shipments = []
@@ -583,11 +582,11 @@ class _ProblemDataBuilder:
             *_, pick_idx, deliv_idx = pickup_data
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
-                delivery_data = data[deliv_idx - num_depots]
+                delivery_data = data[deliv_idx - 1]  # zero-indexed
                 shipments.append(
                     Shipment(
                         pickup_location=idx,
-                        delivery_location=deliv_idx - num_depots,
+                        delivery_location=deliv_idx - 1,
                         pickup_tw_early=pickup_data[1],
                         pickup_tw_late=pickup_data[2],
                         pickup_service_duration=pickup_data[3],
-- 
2.43.0


From da330d4d2533f6357acb5b23f6888627f55ecff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:43 +0000
Subject: [PATCH 12/18] fix: forbid travel from every depot to backhaul clients
 in VRPB instances

---
 pyvrp/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index baaaa13..1d4ef57 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -528,7 +528,7 @@ class _ProblemDataBuilder:
             # backhaul clients).
             linehaul = self.parser.demands() > 0
             backhaul = self.parser.backhauls() > 0
-            distances[0, backhaul] = MAX_VALUE
+            distances[: self.parser.num_depots, backhaul] = MAX_VALUE
             distances[np.ix_(backhaul, linehaul)] = MAX_VALUE
 
         allowed2profile = self._allowed2profile()
-- 
2.43.0


From 0abe593c7e45ca9c2900282be216db58e5afc560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:55 +0000
Subject: [PATCH 13/18] fix: reject negative locations in solution files

---
 pyvrp/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index 1d4ef57..dd9755c 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -125,7 +125,7 @@ def read_solution(where: str | pathlib.Path, data: ProblemData) -> Solution:
     # depots, and the remaining locations are clients or shipment activities.
     # All activities have a unique location, so we can map each location to
     # the activity visiting it.
-    loc2activity: list[Activity | None] = [None] * data.num_locations
+    loc2activity: dict[int, Activity] = {}
     for idx, depot in enumerate(data.depots()):
         loc2activity[depot.location] = Activity(ActivityType.DEPOT, idx)
 
-- 
2.43.0


From ad13c2ff85a463dc09e455e6eb79190082c67de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:21 +0000
Subject: [PATCH 14/18] fix: no slack when a trip starts after the latest end
 of the previous one

---
 pyvrp/cpp/DurationSegment.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.cpp b/pyvrp/cpp/DurationSegment.cpp
index da0902d..b463a3e 100644
--- a/pyvrp/cpp/DurationSegment.cpp
+++ b/pyvrp/cpp/DurationSegment.cpp
@@ -11,10 +11,10 @@ Duration DurationSegment::releaseTime() const { return releaseTime_; }
 
 Duration DurationSegment::slack() const
 {
-    // We have wait duration if release time is after the end of the previous
-    // trip. Starting any later only increases that wait duration, so there
-    // is then definitely no slack.
-    auto const prevSlack = std::max<Duration>(prevEndLate_ - releaseTime_, 0);
+    // We have wait duration if our earliest start is after the end of the
+    // previous trip. Starting any later only increases that wait duration, so
+    // there is then definitely no slack.
+    auto const prevSlack = std::max<Duration>(prevEndLate_ - startEarly(), 0);
     return std::min(startLate() - startEarly(), prevSlack);
 }
 
-- 
2.43.0


From 25b63656682c4522abd86a1af134db050952220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:21 +0000
Subject: [PATCH 15/18] fix: count vehicles of large fleets without overflow

---
 pyvrp/cpp/ProblemData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/cpp/ProblemData.cpp b/pyvrp/cpp/ProblemData.cpp
index 66a3035..ce489ff 100644
--- a/pyvrp/cpp/ProblemData.cpp
+++ b/pyvrp/cpp/ProblemData.cpp
@@ -305,7 +305,7 @@ ProblemData::ProblemData(std::vector<Location> locations,
       shipments_(std::move(shipments)),
       numVehicles_(std::accumulate(vehicleTypes_.begin(),
                                    vehicleTypes_.end(),
-                                   0,
+                                   size_t{0},
                                    [](auto sum, VehicleType const &type)
                                    { return sum + type.numAvailable; })),
       numLoadDimensions_(
-- 
2.43.0


From 676bb348069f2c3567c399256eac3bdc32e2f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 16/18] fix: plot time windows of instances without clients

---
 pyvrp/plotting/plot_time_windows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvrp/plotting/plot_time_windows.py b/pyvrp/plotting/plot_time_windows.py
index 7ec4bb9..35e0e4d 100644
--- a/pyvrp/plotting/plot_time_windows.py
+++ b/pyvrp/plotting/plot_time_windows.py
@@ -25,6 +25,7 @@ def plot_time_windows(
         _, ax = plt.subplots()
 
     tw = np.array([[c.tw_early, c.tw_late] for c in data.clients()])
+    tw = tw.reshape(-1, 2)  # needed in case there are no clients
 
     # Lexicographic sort so for equal start we get shorter TW first
     tw = tw[np.lexsort((tw[:, 1], tw[:, 0]))]
-- 
2.43.0


From b5cf2343dfd193ae0c2e3683c8b118556caecc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 17/18] fix: draw time warp at depots back to the actual start
 time

---
 pyvrp/plotting/plot_route_schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvrp/plotting/plot_route_schedule.py b/pyvrp/plotting/plot_route_schedule.py
index fabb732..0bd5ec2 100644
--- a/pyvrp/plotting/plot_route_schedule.py
+++ b/pyvrp/plotting/plot_route_schedule.py
@@ -111,7 +111,8 @@ def plot_route_schedule(
 
         if activity.time_warp > 0:
             true_arrive = activity.start_time + activity.time_warp
-            timewarp_lines.append(((dist, true_arrive), (dist, stop.tw_late)))
+            start_time = activity.start_time
+            timewarp_lines.append(((dist, true_arrive), (dist, start_time)))
 
         load += load_diff
 
-- 
2.43.0


From f743975249f4307555f4272905914c3642d1eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 18/18] fix: draw the load of multi-trip routes and initial
 loads

---
 pyvrp/plotting/plot_route_schedule.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyvrp/plotting/plot_route_schedule.py b/pyvrp/plotting/plot_route_schedule.py
index 0bd5ec2..12d4196 100644
--- a/pyvrp/plotting/plot_route_schedule.py
+++ b/pyvrp/plotting/plot_route_schedule.py
@@ -55,9 +55,17 @@ def plot_route_schedule(
     serv_time = 0
     dist = 0
 
-    load = 0
+    # Load at the start of each trip. The first trip additionally has any load
+    # that is already in the vehicle. All load is unloaded at the end depot.
+    trip_loads = [0] * (route.num_trips() + 1)
     if track_load:
-        load = route.delivery()[load_dimension]
+        trip_loads[0] = vehicle_type.initial_load[load_dimension]
+        for activity in route:
+            if activity.is_client():
+                client = data.client(activity.idx)
+                trip_loads[activity.trip] += client.delivery[load_dimension]
+
+    load = trip_loads[0]
 
     # Traces and objects used for plotting
     trace_time = []
@@ -80,6 +88,7 @@ def plot_route_schedule(
         match activity.type:
             case ActivityType.DEPOT:
                 stop = data.depot(activity.idx)  # type: ignore
+                load_diff = trip_loads[activity.trip] - load
 
             case ActivityType.CLIENT:
                 client = data.client(activity.idx)
-- 
2.43.0

