From 3de0e1ea9e76bb73fff55fbde5f8b10544195508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 01/24] fix: validate the edges of both directions when adding
 a route

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 6b3d494..83885ff 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -297,7 +297,7 @@ class TransportNetwork:
         nodes_sequence_i = route_obj.nodes_sequence_i
         nodes_sequence_r = route_obj.nodes_sequence_r
 
-        if self.__edges_validator(nodes_sequence_i) or self.__edges_validator(nodes_sequence_r):
+        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):
             if route_id not in self.__routes_id:
                 self.add_transport_mode(route_obj.mode)
                 self.__routes.append(route_obj)
-- 
2.43.0


From 5365796deee7297dcf74135860630fc2dcd00cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 02/24] fix: remove every route of a removed transport mode

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 83885ff..9614d3a 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -280,7 +280,7 @@ class TransportNetwork:
 
         self.__modes = list_mode
 
-        for route in self.__routes:
+        for route in list(self.__routes):
             if route.mode == mode:
                 self.remove_route(route.id)
 
-- 
2.43.0


From 48d733abc0896f598ab3ca6cee499d475f1cb3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 03/24] fix: do not let rounding make the gamma demand share
 negative

---
 sidermit/city/demand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/demand.py b/sidermit/city/demand.py
index b9f8935..6d015fa 100644
--- a/sidermit/city/demand.py
+++ b/sidermit/city/demand.py
@@ -150,7 +150,7 @@ class Demand:
             n = demand_obj.__n
 
             if n > 1:
-                gamma = 1 - alpha - beta
+                gamma = max(0, 1 - alpha - beta)
                 alpha_g = alpha / (1 - beta)
                 gamma_g = gamma / (1 - beta)
             else:
-- 
2.43.0


From dd818323313230fa11bc8fb6a70e140d8c5b7c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 04/24] fix: reject a zone whose periphery and subcenter share
 a node id

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a03d128..015ab0f 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -721,7 +721,8 @@ class Graph:
         """
 
         # to verified if id is not duplicated
-        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id:
+        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id or \
+                node_periphery.id == node_subcenter.id:
             raise NodeIdDuplicatedException('id_node is duplicated')
 
         self.__nodes.append(node_periphery)
-- 
2.43.0


From d264f6e456e848403c1d07928aa5302b12caa9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 05/24] fix: measure route edges through the nodes where no
 route stops

---
 .../optimization/preoptimization/extended_graph.py  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index a0108dd..0b5c296 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -154,7 +154,7 @@ class ExtendedGraph:
         # list with all alighting edges, edges between route_node->stop_node
         alighting_edges = self.build_alighting_edges(self.__extended_graph_nodes, TP)
         # list with all routes edges, edges between route_node(i-1)->route_node(i)
-        routes_edges = self.build_route_edges(self.__extended_graph_nodes)
+        routes_edges = self.build_route_edges(self.__extended_graph_nodes, city_nodes)
 
         self.__extended_graph_edges = []
 
@@ -479,18 +479,23 @@ class ExtendedGraph:
         return alighting_edges
 
     @staticmethod
-    def build_route_edges(extended_graph_nodes: defaultdict2_route_node) -> List[ExtendedEdge]:
+    def build_route_edges(extended_graph_nodes: defaultdict2_route_node, city_nodes: List[CityNode] = None) -> \
+            List[ExtendedEdge]:
         """
         to build extended routes edges
         :param extended_graph_nodes: dic[CityNode][StopNode] = List[RouteNode]
+        :param city_nodes: List[CityNode] with all the nodes of the city, necessary to measure the routes that pass
+        through nodes where no route stops. Default value are the nodes of extended_graph_nodes
         :return: List[ExtendedEdge]
         """
 
+        if city_nodes is None:
+            city_nodes = list(extended_graph_nodes)
+
         route_nodes = []
-        nodes = []
+        nodes = [city_node.graph_node for city_node in city_nodes]
 
         for city_node in extended_graph_nodes:
-            nodes.append(city_node.graph_node)
             for stop_node in extended_graph_nodes[city_node]:
                 for route_node in extended_graph_nodes[city_node][stop_node]:
                     route_nodes.append(route_node)
-- 
2.43.0


From e39234d0d90020266f3623c6223763b4416181bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 06/24] fix: assign the trips of an OD pair when the
 indifference walk equals the last stop position

---
 sidermit/optimization/preoptimization/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 318a71f..885ca66 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -106,7 +106,7 @@ class Assignment:
                                         stop1]
                                     break
                             # si no se encontro paradero mas lejos a la distancia de indiferencia asignar to do a stop1
-                            if position < d:
+                            if position <= d:
                                 assignment[origin][destination][stop1] = 100
                     else:
                         # si parametro d de stop2 es impar
-- 
2.43.0


From 2e8bb1de917099934e46da90aa520da3a87b9961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 07/24] fix: weight the access time of intermediate transfers
 by the passengers

---
 sidermit/optimization/users_cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index ec63a73..e43b4dd 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -141,10 +141,10 @@ class UsersCost:
                         # reportar ta
                         if isinstance(nodei, StopNode):
                             if isinstance(nodej, CityNode):
-                                ta += nodei.mode.tat / 60
+                                ta += dis_pax * nodei.mode.tat / 60
                         if isinstance(nodej, StopNode):
                             if isinstance(nodei, CityNode):
-                                ta += nodej.mode.tat / 60
+                                ta += dis_pax * nodej.mode.tat / 60
 
                         # agregamos elementos faltantes a las rutas
                         # si nodo i, nodo j y nodo k (new suc ) son de rutas entonces
-- 
2.43.0


From 971b44b5a9d55e282b13865984dbd93a0982c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 08/24] fix: read the direction of a section from the route
 node in the time on board

---
 sidermit/optimization/users_cost.py | 77 +++++------------------------
 1 file changed, 11 insertions(+), 66 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index e43b4dd..c29ba30 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -111,32 +111,9 @@ class UsersCost:
                                     t += dis_pax
 
                                 # para tiempo de viaje adicional por esperar la bajada del vehiculo
-                                nodei_id = nodei.prev_route_node.stop_node.city_node.graph_node.id
-                                nodej_id = nodei.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 tb = nodei.route.mode.t / 3600
-                                # verificamos si es del sentido de ida
-                                if index_i < index_j:
-                                    pax_b = v[nodei.route.id]["I"][nodej]
-                                    tv += (pax_b * 0.5 * tb) * dis_pax
-
-                                # sentido de vuelta
-                                else:
-                                    pax_b = v[nodei.route.id]["R"][nodej]
-                                    tv += (pax_b * 0.5 * tb) * dis_pax
+                                pax_b = v[nodei.route.id][nodei.direction][nodej]
+                                tv += (pax_b * 0.5 * tb) * dis_pax
 
                         # reportar ta
                         if isinstance(nodei, StopNode):
@@ -159,47 +136,15 @@ class UsersCost:
                                                                                                             RouteNode):
                                 bya = nodei.route.mode.bya
                                 tb = nodei.route.mode.t / 3600
-                                # determinamos dirección
-                                nodei_id = nodei.stop_node.city_node.graph_node.id
-                                nodej_id = nodej.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
-                                # verificamos si es del sentido de ida
-                                if index_i < index_j:
-                                    # simultaneo
-                                    if bya == 1:
-                                        pasajeros = max(z[nodei.route.id]["I"][nodej.stop_node],
-                                                        v[nodei.route.id]["I"][nodej.stop_node])
-                                        tv += pasajeros * tb * dis_pax
-                                    # secuencial
-                                    if bya == 0:
-                                        pasajeros = z[nodei.route.id]["I"][nodej.stop_node] + v[nodei.route.id]["I"][
-                                            nodej.stop_node]
-                                        tv += pasajeros * tb * dis_pax
-                                # sentido de vuelta
-                                else:
-                                    # simultaneo
-                                    if bya == 1:
-                                        pasajeros = max(z[nodei.route.id]["R"][nodej.stop_node],
-                                                        v[nodei.route.id]["R"][nodej.stop_node])
-                                        tv += pasajeros * tb * dis_pax
-                                    # secuencial
-                                    if bya == 0:
-                                        pasajeros = z[nodei.route.id]["R"][nodej.stop_node] + v[nodei.route.id]["R"][
-                                            nodej.stop_node]
-                                        tv += pasajeros * tb * dis_pax
+                                direction = nodei.direction
+                                pax_b = z[nodei.route.id][direction][nodej.stop_node]
+                                pax_a = v[nodei.route.id][direction][nodej.stop_node]
+                                # simultaneo
+                                if bya == 1:
+                                    tv += max(pax_b, pax_a) * tb * dis_pax
+                                # secuencial
+                                if bya == 0:
+                                    tv += (pax_b + pax_a) * tb * dis_pax
 
         return ta, te, tv, t
 
-- 
2.43.0


From 8cc0dc4382d5f323e292c10b542a925ab7d9f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 09/24] fix: reject a network without stops in the origin or
 destination of an OD pair on every call

---
 sidermit/optimization/preoptimization/hyper_path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 0a8d484..4782ef2 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -55,6 +55,11 @@ class Hyperpath:
                         if str(destination_id) == str(city_node.graph_node.id):
                             destination = city_node
 
+                    # without any stop in the origin or in the destination there is no path
+                    if origin is None or destination is None:
+                        raise TransportNetworkException(
+                            "par OD {}-{} without connection".format(origin_id, destination_id))
+
                     _, label, _ = self.build_hyperpath_graph(origin, destination)
 
                     # if there is a stop with a label != infinity, you can get from the origin to the destination
-- 
2.43.0


From d005b250d78eabd35d1503f19929ab7e0a62417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 10/24] fix: validate d before scaling the frequencies of a
 transport mode with it

---
 sidermit/publictransportsystem/mode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidermit/publictransportsystem/mode.py b/sidermit/publictransportsystem/mode.py
index 8889272..354f3fa 100644
--- a/sidermit/publictransportsystem/mode.py
+++ b/sidermit/publictransportsystem/mode.py
@@ -82,12 +82,13 @@ class TransportMode:
         self.c2 = c2
         self.v = v
         self.t = t
-        self.fmax = fmax * d
+        self.d = d
+        # None and negative values are rejected by the property
+        self.fmax = fmax * d if fmax is not None else None
         self.kmax = kmax
         self.theta = theta
         self.tat = tat
-        self.d = d
-        self.fini = fini * d
+        self.fini = fini * d if fini is not None else None
 
     @staticmethod
     def get_default_modes() -> List[TransportMode]:
-- 
2.43.0


From 0d79648219eacc5898bfadcb2ad9da2ef70f7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/24] fix: require the CBD in a Pajek file without zones

---
 sidermit/city/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 015ab0f..6eda47f 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -574,6 +574,8 @@ class Graph:
             if len(cbd) == 1:
                 r_cbd = cbd[0].radius
                 ang_cbd = cbd[0].angle
+            elif n == 0:
+                raise CBDDoesNotExistException("the only node of a city without zones must be the CBD")
 
             etha = None
             etha_zone = None
-- 
2.43.0


From 306ca1b9119ef55e012850ef7157bb66a154f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 12/24] fix: import Pajek files with subcenters in the origin

---
 sidermit/city/graph.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 6eda47f..5e9ff15 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -610,7 +610,8 @@ class Graph:
                 ang_sc.append(angle_sc)
 
                 # Update etha and etha_zone
-                if ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:
+                # a subcenter in the origin does not define a direction for the CBD
+                if radius_sc != 0 and ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:
                     etha_zone = zone_id
                     etha = r_cbd / radius_sc
 
@@ -618,13 +619,19 @@ class Graph:
             g = 0
             if len(r_sc) != 0 and len(r_p) != 0:
                 L = sum(r_sc) / len(r_sc)
-                g = (sum(r_p) / len(r_p) - L) / L
+                mean_r_p = sum(r_p) / len(r_p)
+                if L != 0:
+                    g = (mean_r_p - L) / L
+                elif mean_r_p != 0:
+                    raise LIsNotValidNumberException(
+                        'L cannot be zero if there are peripheries out of (0,0) of the Cartesian plane')
 
             Gi = []
             Hi = []
             for i in range(n):
-                Gi.append(r_sc[i] / L)
-                Hi.append(r_p[i] / (L + g * L))
+                # ratios are 1 if all the nodes are in the origin
+                Gi.append(r_sc[i] / L if L != 0 else 1)
+                Hi.append(r_p[i] / (L + g * L) if L + g * L != 0 else 1)
 
             angles = ang_sc
 
-- 
2.43.0


From 230a00254005046e1a15f8c3d246d4a02a22ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 13/24] fix: report the load of each section and the boardings
 of circular routes

---
 sidermit/optimization/optimizer.py | 31 ++++++++++++------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 7c6a31c..c0d2ecf 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -557,15 +557,19 @@ class Optimizer:
                         node_sequence = nodes_sequence_r
                         direction = "R"
                     load_i = []
-                    for i in node_sequence:
+                    # the last node is the first one again
+                    for i in node_sequence[:-1]:
                         for stop_node in z[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
                                 total_b += z[route.id][direction][stop_node]
                                 break
+                        # load of the section that starts in the node, zero if nobody travels in it
+                        load_section = 0
                         for stop_node in loaded_section_route[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
-                                load_i.append(loaded_section_route[route.id][direction][stop_node])
+                                load_section = loaded_section_route[route.id][direction][stop_node]
                                 break
+                        load_i.append(load_section)
 
                     if total_b == 0:
                         co = 0
@@ -573,28 +577,17 @@ class Optimizer:
                         co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
                                 total_b * f[route.id])
 
-                    if len(load_i) >= 1:
-                        charge_min = min(load_i) / max(load_i)
-                    else:
-                        load_i = [1] * len(node_sequence)
-                        charge_min = 0
+                    max_load = max(load_i)
+                    if max_load > 0:
+                        load_i = [load_section / max_load for load_section in load_i]
+                    charge_min = min(load_i)
 
                     sub_table = []
                     sub_table_i = []
                     sub_table_r = []
 
-                    node_i = None
-                    charge_ij = None
-                    for i in range(len(node_sequence)):
-                        if i == 0:
-                            node_i = node_sequence[i]
-                            charge_ij = load_i[i] / max(load_i)
-                            continue
-                        else:
-                            node_j = node_sequence[i]
-                            sub_table.append((node_i, node_j, abs(charge_ij)))
-                            node_i = node_j
-                            charge_ij = load_i[i] / max(load_i)
+                    for i in range(len(load_i)):
+                        sub_table.append((node_sequence[i], node_sequence[i + 1], abs(load_i[i])))
 
                     # circular con sentido de ida
                     if len(nodes_sequence_i) > 0:
-- 
2.43.0


From 6497dd363cbfd0d9ab8f112dc531cd0ce258f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 14/24] fix: take the stops without boardings into account in
 the load profile of a line

---
 sidermit/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index c0d2ecf..3b18e14 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -605,7 +605,7 @@ class Optimizer:
                     total_pax = 0
                     for node_id in nodes_sequence_i:
                         bool_add = False
-                        for stopnode in z[route.id]["I"]:
+                        for stopnode in [*z[route.id]["I"], *v[route.id]["I"]]:
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["I"][stopnode]
                                 pax_a = v[route.id]["I"][stopnode]
@@ -621,7 +621,7 @@ class Optimizer:
                     total_pax = 0
                     for node_id in nodes_sequence_r:
                         bool_add = False
-                        for stopnode in z[route.id]["R"]:
+                        for stopnode in [*z[route.id]["R"], *v[route.id]["R"]]:
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["R"][stopnode]
                                 pax_a = v[route.id]["R"][stopnode]
-- 
2.43.0


From 5fbd9f124292d65ce0152b11ab63a5a35d753662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 15/24] fix: report lines without passengers instead of
 dividing by zero

---
 sidermit/optimization/optimizer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 3b18e14..5bdcdc6 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -601,6 +601,8 @@ class Optimizer:
                         cycle_time_line[route.id] * 60,
                         co, abs(charge_min), sub_table_i, sub_table_r))
                 else:
+                    # a line without passengers has no load
+                    max_pax = k[route.id] if k[route.id] > 0 else 1
                     # z and v: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
                     total_pax = 0
                     for node_id in nodes_sequence_i:
@@ -612,11 +614,11 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_i.append((node_id, total_pax / k[route.id]))
+                                charge_i.append((node_id, total_pax / max_pax))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_i.append((node_id, total_pax / k[route.id]))
+                            charge_i.append((node_id, total_pax / max_pax))
 
                     total_pax = 0
                     for node_id in nodes_sequence_r:
@@ -628,14 +630,17 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_r.append((node_id, total_pax / k[route.id]))
+                                charge_r.append((node_id, total_pax / max_pax))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_r.append((node_id, total_pax / k[route.id]))
+                            charge_r.append((node_id, total_pax / max_pax))
 
-                    co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
-                            total_b * f[route.id])
+                    if total_b == 0:
+                        co = 0
+                    else:
+                        co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
+                                total_b * f[route.id])
 
                     charge_min = float("inf")
                     sub_table_i = []
-- 
2.43.0


From ed7cd2cd49fd9554548859fc18d0897bce37bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 16/24] fix: do not draw a plot over the previous ones

---
 sidermit/city/graph.py                    | 2 ++
 sidermit/publictransportsystem/network.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 5e9ff15..4b6c893 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -1043,6 +1043,8 @@ class Graph:
         G = nx.DiGraph()
         G.add_edges_from(edges)
 
+        # remove what previous plots drew
+        plt.clf()
         # separate calls to draw labels, nodes and edges
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_p, node_color='red', node_size=300)
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_sc, node_color='blue', node_size=300)
diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 9614d3a..bd716c7 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -784,6 +784,8 @@ class TransportNetwork:
         G.add_edges_from(edges_i)
         G.add_edges_from(edges_r)
 
+        # remove what previous plots drew
+        plt.clf()
         # separate calls to draw labels, nodes and edges
         # plot p, Sc and CBD
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_p, node_color='red', node_size=300)
-- 
2.43.0


From ce144e621d992131b65ce69bdeda0c2ac69482fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 17/24] fix: place the stops of a mode with an odd number of
 parallel lines in the assignment

---
 sidermit/optimization/preoptimization/assignment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 885ca66..aaa6bc8 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -95,7 +95,11 @@ class Assignment:
                             # reconoceremos posición de todos los paraderos ubicado a la derecha de stop1
                             for i in range(int(stop2.mode.d / 2)):
                                 if i == 0:
-                                    position = zona_stop_2 / 2
+                                    # si d de stop2 es impar su paradero central coincide con stop1
+                                    if stop2.mode.d % 2 == 1:
+                                        position = zona_stop_2
+                                    else:
+                                        position = zona_stop_2 / 2
                                 else:
                                     position = position + zona_stop_2
                                 # encontramos un paradero de stop2 que esta ubicado mas lejos que la distancia de
-- 
2.43.0


From b6dbd65a7b0e24505acc816f75a4d71523648363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:15 +0000
Subject: [PATCH 18/24] fix: take the angle of a zone from its periphery when
 its subcenter is in the origin

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 4b6c893..c039ef2 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -603,7 +603,8 @@ class Graph:
 
                 radius_p = node_periphery.radius
                 radius_sc = node_subcenter.radius
-                angle_sc = node_subcenter.angle
+                # a subcenter in the origin has no direction, the one of the zone is that of its periphery
+                angle_sc = node_subcenter.angle if radius_sc != 0 else node_periphery.angle
 
                 r_sc.append(radius_sc)
                 r_p.append(radius_p)
-- 
2.43.0


From 19e320b9cbf2a5418ccfcc5e45eb48fb70472d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:13 +0000
Subject: [PATCH 19/24] fix: recognize the zone of the CBD across the 0/360
 degrees direction

---
 sidermit/city/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index c039ef2..c635628 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -611,8 +611,8 @@ class Graph:
                 ang_sc.append(angle_sc)
 
                 # Update etha and etha_zone
-                # a subcenter in the origin does not define a direction for the CBD
-                if radius_sc != 0 and ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:
+                # a subcenter in the origin does not define a direction for the CBD, and 0 and 360 are the same direction
+                if radius_sc != 0 and abs((angle_sc - ang_cbd + 180) % 360 - 180) <= 0.001:
                     etha_zone = zone_id
                     etha = r_cbd / radius_sc
 
-- 
2.43.0


From 0fda36a8e5342d545b4cfe4a980359838556dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 20/24] fix: do not divide by zero at stops that no passenger
 of a line without frequency reaches

---
 sidermit/optimization/preoptimization/assignment.py | 4 ++++
 sidermit/optimization/users_cost.py                 | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index aaa6bc8..1f134c8 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -204,6 +204,10 @@ class Assignment:
                                 # aumentan las cargas por tramo
                                 loaded_section_route[nodei.route.id][nodei.direction][nodei.stop_node] += dis_pax
 
+                        # nadie sigue por aqui, sus paraderos pueden incluso no tener lineas con frecuencia
+                        if dis_pax == 0:
+                            continue
+
                         # agregar nuevos elementos a paths, salvo que hayan llegado a destino
                         if isinstance(nodej, StopNode) and nodej.city_node == destination:
                             continue
diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index c29ba30..f04f11f 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -123,6 +123,10 @@ class UsersCost:
                             if isinstance(nodei, CityNode):
                                 ta += dis_pax * nodej.mode.tat / 60
 
+                        # nadie sigue por aqui, sus paraderos pueden incluso no tener lineas con frecuencia
+                        if dis_pax == 0:
+                            continue
+
                         # agregamos elementos faltantes a las rutas
                         # si nodo i, nodo j y nodo k (new suc ) son de rutas entonces
                         for suc in successors[origin][destination][nodej]:
-- 
2.43.0


From b616097e106e9d4876c1ebb4c0a4259fa44b0362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 21/24] fix: print access times of the extended graph in
 minutes

---
 sidermit/optimization/preoptimization/extended_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index 0b5c296..8c7f05f 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -179,7 +179,7 @@ class ExtendedGraph:
                 # information about access edge
                 for edge in self.__extended_graph_edges:
                     if edge.nodei == city_node and edge.nodej == stop_node:
-                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t)
+                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t * 60)
 
                 line += "\t\tStop node\n\t\t-Mode name: {}\n".format(stop_node.mode.name)
 
-- 
2.43.0


From 2e99a5d9eba08787ebe2df394b6ce8bf688d1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 22/24] fix: write the Pajek file of a city in UTF-8, the
 encoding in which it is read

---
 sidermit/city/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index c635628..048ac57 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -247,7 +247,7 @@ class Graph:
         :return: None
         """
 
-        file = open(file_path, 'w')
+        file = open(file_path, 'w', encoding='utf-8')
         string_file = self.export_graph(format)
         file.write(string_file)
 
-- 
2.43.0


From 77ce4df9a53053b5c3b66810f1ebb9cb3837e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 23/24] fix: start the optimization from the frequencies that
 were given, not from those of the modes

---
 sidermit/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 5bdcdc6..a2f7379 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -98,7 +98,7 @@ class Optimizer:
         else:
             for route in self.network_obj.get_routes():
                 fini[route.id] = f[route.id]
-                fopt.append(route.mode.fini)
+                fopt.append(f[route.id])
                 lines_position[n] = route.id
                 n += 1
 
-- 
2.43.0


From 543444af7ab56aee2e0b27a3588ce65ae76ef847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:46 +0000
Subject: [PATCH 24/24] fix: keep the only line of a stop when there is no
 waiting time

---
 sidermit/optimization/preoptimization/hyper_path.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 4782ef2..aac3854 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -210,8 +210,9 @@ class Hyperpath:
                     # equivalent to ~t_b
                     t_ib = min(labels[edge_b.nodej], labels_inf[edge_b.nodej]) + edge_b_t
 
-                    # remove sub optimal edge in the successors list
-                    if t_ib >= labels[i]:
+                    # remove sub optimal edge in the successors list, the only one is optimal (without waiting time
+                    # its label is that of i)
+                    if t_ib >= labels[i] and len(successor[i]) > 1:
                         successor[i].remove(edge_b)
                         labels[i] = (frequencies[i] * labels[i] - edge_b.f * t_ib) / (frequencies[i] - edge_b.f)
                         frequencies[i] = frequencies[i] - edge_b.f
-- 
2.43.0

