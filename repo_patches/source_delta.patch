From b253d9bd2a21428137644a6a356cae1159ceda3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 01/19] fix: store the engine order given to Movable

---
 src/openclsim/core/movable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 31f0fec..a13cd4f 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -59,7 +59,7 @@ class Movable(Locatable, PerformsActivity, Log):
         super().__init__(*args, **kwargs)
         """Construct a movable object."""
         self._v = v
-        self.engine_order = 1.0
+        self.engine_order = engine_order
 
     def move(
         self,
-- 
2.43.0


From 08f3f5bb760baca20be7a849e1bdbcd40166e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 02/19] fix: sum the levels of all containers for the speed of
 a multi container movable

---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index a13cd4f..35e2eff 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -222,8 +222,8 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
         sum_level = 0
         sum_capacity = 0
         for id_ in self.container.container_list:
-            sum_level = self.container.get_level(id_)
-            sum_capacity = self.container.get_capacity(id_)
+            sum_level += self.container.get_level(id_)
+            sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
         return self.compute_v(fill_degree)
 
-- 
2.43.0


From 3d5d1904f468f3d131e35b12cc69ff5d2efde3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 03/19] fix: apply the engine order to the speed of container
 dependent movables

---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 35e2eff..a887a54 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -191,7 +191,7 @@ class ContainerDependentMovable(Movable, HasContainer):
 
     @property
     def v(self):
-        return self.compute_v(
+        return self.engine_order * self.compute_v(
             self.container.get_level() / self.container.get_capacity()
         )
 
@@ -225,7 +225,7 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
             sum_level += self.container.get_level(id_)
             sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
-        return self.compute_v(fill_degree)
+        return self.engine_order * self.compute_v(fill_degree)
 
 
 class Routable(Movable, Locatable):
-- 
2.43.0


From 46d212fd380e95c7e1aac852cb7d222eb90a569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 04/19] fix: duration of move_to_geometry is distance over
 speed

---
 src/openclsim/core/movable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index a887a54..c11af22 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -334,7 +334,7 @@ class Routable(Movable, Locatable):
         """
         linestring = shapely.geometry.LineString([self.geometry, geometry])
         distance = WGS84.geometry_length(linestring)
-        duration = self.v * distance
+        duration = distance / self.v
         yield self.env.timeout(duration)
         self.geometry = geometry
 
-- 
2.43.0


From 6b3b029c7713fd8f044535e430e6627787af371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 05/19] fix: count the engine order only once when passing a
 linestring

---
 src/openclsim/core/movable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index c11af22..4a31a70 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -354,7 +354,7 @@ class Routable(Movable, Locatable):
         b = shapely.geometry.Point(geometry.coords[-1])
         assert isinstance(geometry, shapely.geometry.LineString)
         distance = WGS84.geometry_length(geometry)
-        duration = distance / (self.v * self.engine_order)
+        duration = distance / self.v
         self.geometry = a
         yield self.env.timeout(duration)
         self.geometry = b
-- 
2.43.0


From 6405b0cc90ae7c949ff488c2e19f65fea19737bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 06/19] fix: sail over the route of the graph in the
 environment

---
 src/openclsim/core/movable.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 4a31a70..8ed8059 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -394,16 +394,16 @@ class Routable(Movable, Locatable):
             a list of nodes that are available on the network
         """
         a = route[0]
-        a_geometry = self.graph.nodes[a]["geometry"]
+        a_geometry = self.env.graph.nodes[a]["geometry"]
         yield from self.move_to_geometry(a_geometry)
         # move self to node + geometry
         self.node = a
         self.geometry = a_geometry
 
         for i, (a, b) in enumerate(pairwise(route)):
-            a_geometry = self.graph[a]["geometry"]
-            b_geometry = self.graph[b]["geometry"]
-            edge_geometry = self.graph[(a, b)]["geometry"]
+            a_geometry = self.env.graph.nodes[a]["geometry"]
+            b_geometry = self.env.graph.nodes[b]["geometry"]
+            edge_geometry = self.env.graph.edges[(a, b)]["geometry"]
             # make sure we are in the right order
             edge_geometry = self.order_geometry(edge_geometry, a_geometry)
             # go to a (we should already be here)
@@ -412,7 +412,7 @@ class Routable(Movable, Locatable):
             # pass over the edge
             yield from self.pass_linestring(edge_geometry)
             # call any other functions we have registered
-            for pass_edge_function in self.pass_edge_function:
+            for pass_edge_function in self.on_pass_edge_functions:
                 yield pass_edge_function(
                     movable=self, a=a, b=b, route=route, geometry=edge_geometry
                 )
-- 
2.43.0


From 99d3624db42ae1b17ca1b1b962ced470263e95bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 07/19] fix: export the direct parent of nested activities

---
 src/openclsim/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7497e88..632a778 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -58,8 +58,10 @@ def get_tree_as_list(treelist, depth=0) -> dict:
             d = get_tree_as_list(act.sub_processes, depth + 1)
             ActivityID += d["ActivityID"]
             activity += d["activity"]
-            ParentId += [act.id] * len(d["activity"])
-            ParentName += [act.name] * len(d["ParentName"])
+            # only direct sub processes have no parent yet, deeper ones keep theirs
+            n = len(act.sub_processes)
+            ParentId += [act.id] * n + d["ParentId"][n:]
+            ParentName += [act.name] * n + d["ParentName"][n:]
             ActivityClass += d["ActivityClass"]
             ActivityName += d["ActivityName"]
             ParentLevel += d["ParentLevel"]
-- 
2.43.0


From ba5ce5aaf547c2d886265a8c3c1e5452f11f897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 08/19] fix: weather that stays exactly at its limit is
 workable

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 75a2689..455296a 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -137,7 +137,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         if criterion.maximum is not None:
             threshold = {col: criterion.maximum}
 
-            if orig_data[col].max() < threshold[col]:
+            if orig_data[col].max() <= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
@@ -151,7 +151,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             threshold = {col: criterion.minimum}
 
-            if orig_data[col].min() > threshold[col]:
+            if orig_data[col].min() >= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
-- 
2.43.0


From 1f085fc28551680041f862696a97d5c64476c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 09/19] fix: use the level of the transferred container in rate
 functions

---
 src/openclsim/model/shift_amount_activity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f564ea4..58cd9e2 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -202,9 +202,9 @@ class ShiftAmountActivity(GenericActivity):
         if self.duration is not None:
             return lambda origin, destination: (self.duration, amount)
         elif self.phase == "loading":
-            return partial(self.processor.loading, amount=amount)
+            return partial(self.processor.loading, amount=amount, id_=self.id_)
         elif self.phase == "unloading":
-            return partial(self.processor.unloading, amount=amount)
+            return partial(self.processor.unloading, amount=amount, id_=self.id_)
         else:
             raise RuntimeError(
                 "Both the phase (loading / unloading) and the duration of the "
-- 
2.43.0


From 2daac7722c195e0e463f444b4d5797527d16e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 10/19] fix: unloading rate functions get the level before and
 after the shift

---
 src/openclsim/core/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index e4beaf3..a24dd34 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -264,8 +264,8 @@ class UnloadingFunction:
             return duration, amount
         else:
             unloading_time = self.unloading_rate(
-                origin.container.get_level(id_) + amount,
                 origin.container.get_level(id_),
+                origin.container.get_level(id_) - amount,
             )
             duration = unloading_time + self.unload_manoeuvring * 60
             return duration, amount
-- 
2.43.0


From 8bca5aae5e9dac54c3d6c85754d8c15ac8b76881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:40 +0000
Subject: [PATCH 11/19] fix: do not hand out a fired container event whose
 condition no longer holds

---
 src/openclsim/core/events_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/events_container.py b/src/openclsim/core/events_container.py
index b748dff..d657f70 100644
--- a/src/openclsim/core/events_container.py
+++ b/src/openclsim/core/events_container.py
@@ -82,7 +82,7 @@ class EventsContainer(simpy.FilterStore):
         current_level = self.get_level(id_)
         event_status = getattr(py_opp, operator)(current_level, level)
 
-        if not event or (not event_status and event.processed):
+        if not event or (not event_status and event.triggered):
             # If event_status is still correct keep it otherwise overwrite it.
             self._container_events[(id_, level, operator)] = self._env.event()
 
-- 
2.43.0


From e11c691dcd7e48a1cbaa3a684fb1c1ed1d887aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 12/19] fix: report every activity on a path of maximal
 duration as critical

The search judged activities by single longest paths of a graph with
discounted durations. An activity was dropped when such a path was not of
maximal duration, also if another path through the same activity was. It
also failed with a RecursionError for more than about a thousand
activities. Compute the longest path through every activity instead.
---
 .../critical_path/simulation_graph.py         | 186 +++++-------------
 1 file changed, 50 insertions(+), 136 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c42878b..f5eff50 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -3,9 +3,9 @@ Module that contains class SimulationGraph.
 SimulationGraph is a graph representation of simulated activities and their dependencies.
 """
 
-import copy
 import datetime as dt
 import logging
+import math
 
 import networkx as nx
 from pandas.api.types import is_numeric_dtype, is_timedelta64_dtype
@@ -277,148 +277,62 @@ class SimulationGraph:
                 dependency_cause, dependency_effect, **edge_kwargs
             )
 
-    def __find_critical_edges(
-        self,
-        marked_edges_graph=None,
-        list_critical=None,
-        list_noncritical=None,
-        to_discount=None,
-        max_duration=None,
-        t_max_end=None,
-        duration_discounted_prev=None,
-    ):
+    def __find_critical_edges(self):
         """
-        Create a list of edges on a longest path in the graph (recursively).
-
-        This method recursively builds a list of edges in the activity graph
-        which are on the longest path. In a nutshell the process is as follows:
-
-        0. Create a shadow/copy of the activity graph 'marked_edges_graph'.
-        1. Find an initial longest path, mark all edges on it as such, and set
-           their 'duration' to 10**-4 on the shadow-graph (i.e. discount all
-           edges which have already been marked).
-        2. Find a new longest path in the shadow-graph, and check if the
-           duration in the original graph equals the maximum length. If so,
-           good! Mark all edges as critical and set duration in the shadow
-           graph to 10**-4. If not a feasible longest path, then mark the last
-           edge as noncritical, and set its weight in the shadow graph to
-           10**-8.
-        3. Repeat until all edges are marked as critical or non-critical.
-        """
-
-        feasible_longest = False  # all edges on path can be discounted at once
-
-        # the initial iteration
-        if marked_edges_graph is None:
-            # make a copy of the graph to change weights
-            marked_edges_graph = copy.deepcopy(self.simulation_graph)
-
-            # get an initial longest path
-            longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
-            list_critical = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            logging.debug(f"Found initial longest path {list_critical}.")
+        Create a list of the activity edges on a longest path in the graph.
 
-            # get the end time of the initial longest path
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
+        An edge is on a longest path if the longest path through this edge,
+        i.e. the longest path towards it, the edge itself and the longest path
+        from there, is of maximum duration. The path must also end at the same
+        time as the longest path of the graph.
 
-            logging.debug(
-                f"Max duration {round(self.max_duration, 2)}, "
-                f"t_start {t_start} and t_max end {t_max_end}."
+        Returns
+        -------
+        list_critical : list
+            list of activity edges which are on a longest path
+        """
+        # get a longest path and its end time
+        longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
+        t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
+
+        nodes = list(nx.topological_sort(self.simulation_graph))
+        edges = self.simulation_graph.edges
+
+        # duration of the longest path towards each node
+        duration_to = {}
+        for node in nodes:
+            duration_to[node] = max(
+                [
+                    duration_to[start] + edges[start, node]["duration"]
+                    for start in self.simulation_graph.predecessors(node)
+                ],
+                default=0,
             )
 
-            # ready to continue
-            list_noncritical = []
-            to_discount = []
-            feasible_longest = True
-
-        # any following iteration
-        else:
-            # get the current longest path in the discount graph
-            longest_path = nx.dag_longest_path(marked_edges_graph, weight="duration")
-            lp_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-
-            # get the original duration
-            lp_duration_discounted = nx.path_weight(
-                marked_edges_graph, longest_path, weight="duration"
-            )
-            lp_duration = round(
-                nx.path_weight(self.simulation_graph, longest_path, weight="duration"),
-                2,
-            )
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-            logging.debug(
-                f"longest path found: duration {lp_duration}, t_start "
-                f"{t_start} and t_end {t_end}. (discounted duration "
-                f"{lp_duration_discounted})"
+        # duration of the longest path from each node until the end time
+        duration_from = {}
+        for node in reversed(nodes):
+            is_end = self.simulation_graph.nodes[node]["time"] == t_max_end
+            duration_from[node] = max(
+                [
+                    duration_from[end] + edges[node, end]["duration"]
+                    for end in self.simulation_graph.successors(node)
+                ],
+                default=0 if is_end else -math.inf,
             )
 
-            # see if this path is a feasible longest path in the original
-            # i.e. must be max duration and same end time
-            new_cp = (lp_duration == round(self.max_duration, 2)) and (
-                t_end == t_max_end
-            )
-            if new_cp:
-                # create list of not-yet-marked-as-critical critical edges
-                to_add_critical = [
-                    edge for edge in lp_edges if edge not in list_critical
-                ]
-                logging.debug(
-                    "New elements on critical path path, " f"adding {to_add_critical}."
-                )
-                list_critical += to_add_critical
-                feasible_longest = True
-            else:
-                to_add_discount = [edge for edge in lp_edges if edge not in to_discount]
-                logging.debug("adding to discount")
-                to_discount += to_add_discount
-
-        # discount the edges, all at once, or only the last one
-        if feasible_longest:
-            logging.debug("discounting all")
-            # in one go discount all activity edges in critical path
-            list_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            for edge in list_edges:
-                marked_edges_graph.edges[edge]["duration"] = 10**-4
-                self.simulation_graph.edges[edge][self.__COLNAME_CRITICAL] = (
-                    self.__CRITICAL[1]
-                )
-            yet_to_discount = []
-        else:
-            yet_to_discount = [
-                edge for edge in to_discount if edge not in list_noncritical
-            ]
-            if len(yet_to_discount) > 0:
-                logging.debug(f"Discounting {yet_to_discount[-1]}")
-                marked_edges_graph.edges[yet_to_discount[-1]]["duration"] = 10**-8
-                list_noncritical.append(yet_to_discount[-1])
-                yet_to_discount = yet_to_discount[:-1]
-
-        # iterate if we have yet to discount or if we have marked all edges
-        if len(list_critical) + len(list_noncritical) == self.n_activities:
-            return list_critical
-        return self.__find_critical_edges(
-            marked_edges_graph=marked_edges_graph,
-            list_critical=list_critical,
-            list_noncritical=list_noncritical,
-            to_discount=yet_to_discount,
-            max_duration=max_duration,
-            t_max_end=t_max_end,
-            duration_discounted_prev=duration_discounted_prev,
-        )
+        list_critical = []
+        for start, end in edges:
+            if edges[start, end]["edge_type"] != "activity":
+                continue
+            duration = edges[start, end]["duration"]
+            lp_duration = duration_to[start] + duration + duration_from[end]
+            # i.e. must be max duration (up to rounding)
+            if self.max_duration - lp_duration < 0.01:
+                list_critical.append((start, end))
+                edges[start, end][self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
+
+        return list_critical
 
     def get_list_critical_activities(self):
         """
-- 
2.43.0


From 491c24367c7d787ecd18bb7dae9b11356a2eb4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 13/19] fix: find the simpy dependencies of long simulations

The dependencies between timeouts were found by recursion over the
recorded events, which raised a RecursionError when more than a few hundred
events follow one another. Walk through the recorded pairs instead, which
are in order of time.
---
 .../dependencies_from_simpy_step.py           | 76 +++++--------------
 1 file changed, 21 insertions(+), 55 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 0e7bd76..b26796a 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -7,7 +7,6 @@ are to be found with method 'simpy step':
 """
 
 import copy
-import logging
 
 import pandas as pd
 import simpy
@@ -58,68 +57,35 @@ class DependenciesFromSimpy(BaseCP):
         """
         Hidden and protected method for the get_dependency_list.
 
-        This method recursively walks through the simpy dependencies
+        This method walks through the simpy dependencies
         (as the 'monkey-patched' step function recorded these) and keeps only those dependencies
         which are a timeout event. Then we translate the IDs of these dependencies from
         the original simpy e_id values to our openclsim cp_activity_id values.
         """
-        # Define some globals to which the recursive functions/while loop can append
-        DEPENDENCIES_OPENCLSIM = []
-        SEEN = []
 
-        def __extract_openclsim_dependencies(tree_input, elem=None, last_seen=None):
+        def __is_relevant_timeout(elem):
             """
-            Extract the relevant (OpenCLSim) dependencies from the complete list
-            of all Simpy dependencies.
-
-            This function will walk through a dependency tree which is represented by
-            list of tuples (e.g. [(1, 2), (2, 3), (2, 4))]). Each tuple contains two
-            eids (event-IDs) and can be seen a dependency with a cause (first element
-            tuple) and effect (second and last element tuple).
             CriticalPathEnvironment registers all events, but we are only
             interested in events which are OpenClSim activities with duration,
-            i.e. we are only interested in Timeout event with a _delay attribute > 0.
-            This function extracts such dependencies (which Timeout causes which timeout)
-            from the original tree_input.
+            i.e. we only want events that are 1) a Timeout and 2) have a delay > 0
+            (because these events take time)
             """
-            if elem is None:
-                elem = tree_input[0][0]
-
-            # note that we have seen this one
-            SEEN.append(elem)
-
-            # get effects
-            effects_this_elem = [tup[1] for tup in tree_input if tup[0] == elem]
-            # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
-            # (because these events take time)
-            relevant_timeout = (
-                isinstance(
-                    self.step_logging_dataframe.loc[elem, "event_object"],
-                    simpy.events.Timeout,
-                )
-                and self.step_logging_dataframe.loc[elem, "event_object"]._delay > 0
-            )
-
-            if relevant_timeout:
-                # relevant to SAVE
-                if last_seen is not None:
-                    DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
-                last_seen = elem
-
-            for effect_this_elem in effects_this_elem:
-                logging.debug(f"Effect {effect_this_elem} from {effects_this_elem}")
-                __extract_openclsim_dependencies(
-                    tree_input, elem=effect_this_elem, last_seen=last_seen
-                )
-
-            return None
-
-        # get all relevant dependencies from the simpy dependencies,
-        # that is find how the timeouts depend on one another.
-        tree = copy.deepcopy(self.__cause_effect_list)
-        while len(tree) > 0:
-            __extract_openclsim_dependencies(tree)
-            tree = [tup for tup in tree if tup[0] not in SEEN]
+            event = self.step_logging_dataframe.loc[elem, "event_object"]
+            return isinstance(event, simpy.events.Timeout) and event._delay > 0
+
+        # Get all relevant dependencies from the simpy dependencies, that is find how
+        # the timeouts depend on one another. Each simpy dependency is a tuple with two
+        # e_ids (cause and effect). A cause is registered as effect before its own effects
+        # are, hence the last timeout which led to the cause is known already.
+        dependencies_openclsim = []
+        last_seen = {}
+        for cause, effect in self.__cause_effect_list:
+            if __is_relevant_timeout(cause):
+                last_seen[effect] = cause
+            else:
+                last_seen[effect] = last_seen.get(cause)
+            if last_seen[effect] is not None and __is_relevant_timeout(effect):
+                dependencies_openclsim.append((last_seen[effect], effect))
 
         # get recorded activities and convert times to floats (seconds since Jan 1970)
         recorded_activities_df = self.recorded_activities_df.copy()
@@ -136,7 +102,7 @@ class DependenciesFromSimpy(BaseCP):
                 self._find_cp_act(dependency[0], recorded_activities_df),
                 self._find_cp_act(dependency[1], recorded_activities_df),
             )
-            for dependency in DEPENDENCIES_OPENCLSIM
+            for dependency in dependencies_openclsim
         ]
 
     def _find_cp_act(self, e_id, recorded_activities_df):
-- 
2.43.0


From 8251884825570f675051506d6d578c08c886dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 14/19] fix: keep log entries with equal timestamps in order in
 get_log_dataframe

The default sort is not stable: with many entries at the same time a START
could end up before the preceding STOP of the same activity, which loses
intervals in the planning chart.
---
 src/openclsim/plot/log_dataframe.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 200aa85..e70dedb 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -31,10 +31,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     else:
         id_map = id_map if id_map else {}
 
-    df = (
-        pd.DataFrame(simulation_object.log)
-        .sort_values(by=["Timestamp"])
-        .sort_values(by=["Timestamp"])
+    # a stable sort keeps entries with equal timestamps in the order of the log
+    df = pd.DataFrame(simulation_object.log).sort_values(
+        by=["Timestamp"], kind="stable"
     )
     return pd.concat(
         [
-- 
2.43.0


From 4c173319a2f748e553ee2965603feb3fcadcd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 15/19] fix: accept the documented manual id_map of ids to
 labels

A dict of labels was taken for a dict of activities, which failed with an
AttributeError.
---
 src/openclsim/plot/log_dataframe.py   | 3 ++-
 src/openclsim/plot/vessel_planning.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index e70dedb..e9ba36b 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -23,7 +23,8 @@ def get_log_dataframe(simulation_object, id_map=None):
     if id_map is None:
         id_map = []
 
-    if isinstance(id_map, dict):
+    # a manual id_map (with labels instead of activities) is used as it is
+    if isinstance(id_map, dict) and all(hasattr(x, "id") for x in id_map.values()):
         id_map = [*id_map.values()]
     if isinstance(id_map, list):
         # TO DO should in fact be recursive for nested activities
diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 9ab6ee9..c1dadd8 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -80,7 +80,8 @@ def get_gantt_chart(
     if type(activities) == dict:
         activities = [*activities.values()]
 
-    if type(id_map) == dict:
+    # a manual id_map (with labels instead of activities) is used as it is
+    if type(id_map) == dict and all(hasattr(x, "id") for x in id_map.values()):
         id_map = [*id_map.values()]
 
     if type(id_map) == list:
-- 
2.43.0


From 15437521715794e4cdc7f36c929b7176c0c8f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 16/19] fix: draw the sub-activities of concepts in the
 planning chart

Their ids were replaced by names in the log dataframes but not in the list
of activities to draw, so their bars were missing.
---
 src/openclsim/plot/vessel_planning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index c1dadd8..74235fc 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -88,7 +88,8 @@ def get_gantt_chart(
         id_map = {act.id: act.name for act in get_subprocesses(id_map)}
     else:
         id_map = id_map if id_map else {}
-    act_map = {ves.id: ves.name for ves in concepts}
+    # the log dataframes below also name the sub-activities of the concepts
+    act_map = {act.id: act.name for act in get_subprocesses(concepts)}
 
     if activities is None:
         activities = []
-- 
2.43.0


From 5dd32c165246dbe82b0d8a167b70068ababffe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 17/19] fix: export activities without resources to an empty
 list of resources

get_activity_resources raised an IndexError if none of the activities has a
processor, mover, origin or destination.
---
 src/openclsim/io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 632a778..f730ecf 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -119,16 +119,16 @@ def get_activity_resources(activities, ofile=None):
             )
             for x in df[mask]["activity"]
         ]
-    tmp = list(zip(*li))
-    res = pd.DataFrame.from_dict(
-        {
-            "ActivityID": tmp[0],
-            "ActivityName": tmp[1],
-            "ActivityClass": tmp[2],
-            "ConceptID": tmp[3],
-            "ConceptName": tmp[4],
-            "ConceptMode": tmp[5],
-        }
+    res = pd.DataFrame(
+        li,
+        columns=[
+            "ActivityID",
+            "ActivityName",
+            "ActivityClass",
+            "ConceptID",
+            "ConceptName",
+            "ConceptMode",
+        ],
     )
 
     if ofile:
-- 
2.43.0


From 7df2b07c8fd56407800870b7c6757dffaf34d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 18/19] fix: export ranges of activities that have not started
 or not stopped yet

get_ranges_dataframe and get_activity_log raised a ValueError if an activity
has an empty log, and a TypeError if its first execution has not ended.
---
 src/openclsim/io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index f730ecf..a5fddec 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -195,8 +195,8 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         elif len(t0) == len(t1) + 1:
             print("END missing")
             dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [None]}
-            )  # will give NaT
+                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}
+            )
             t1 = pd.concat([t1, dt1], ignore_index=True)
         else:
             raise Exception("At most 1 range may be without STOP")
@@ -208,6 +208,11 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         s["TimestampDt"] = [x.total_seconds() for x in dt]
         li.append(s)
 
+    if not li:  # nothing logged (yet)
+        return pd.DataFrame(
+            columns=["TimestampStart", "trip", "TimestampStop", idkey, "TimestampDt"]
+        )
+
     R = pd.concat(li)
     R = R.sort_values(by=["TimestampStart"])
 
@@ -349,7 +354,8 @@ def get_activity_log(activities, ofile=None):
         log = get_ranges_dataframe(rowi["activity"])
         log.rename(columns={"Activity": "ActivityID"}, inplace=True)
         li.append(log)
-    ActivityRanges = pd.concat(li)
+    # activities without ranges have no rows
+    ActivityRanges = pd.concat([log for log in li if len(log) > 0] or li)
 
     ActivityRanges = ActivityRanges.merge(
         df[["ActivityID", "ActivityName", "ActivityClass"]], on="ActivityID", how="left"
-- 
2.43.0


From 3cf816a02662a55d3adf7c84d6c22f132c93a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 19/19] fix: keep the steps of an activity out of its own
 ranges

The START and STOP entries for the subprocesses of an activity were paired
with those of the activity itself.
---
 src/openclsim/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index a5fddec..a7400a7 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -156,6 +156,9 @@ def get_ranges_dataframe(simulation_object, id_map=None):
     """
 
     log = get_log_dataframe(simulation_object, id_map=id_map)
+    # the entries for the steps of an activity are no ranges of its own
+    if "type" in log:
+        log = log[log["type"] != "subprocess"]
 
     idkey = "Activity"  # ActivityID
 
-- 
2.43.0

