From 764c78b54e1dd1ce2d4c7a13ac678509c7c0db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 01/56] fix: refuse to remove a bidirectional vertex that still
 has incoming edges

---
 src/library/include/graph/adjacency_list.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/include/graph/adjacency_list.hpp b/src/library/include/graph/adjacency_list.hpp
index fcc3057..693aecd 100644
--- a/src/library/include/graph/adjacency_list.hpp
+++ b/src/library/include/graph/adjacency_list.hpp
@@ -1014,6 +1014,12 @@ namespace map_matching_2::graph {
                 throw std::runtime_error("vertex is still connected.");
             }
 
+            if constexpr (is_bidirectional_v) {
+                if (not in_edges_view(vertex).empty()) {
+                    throw std::runtime_error("vertex is still connected.");
+                }
+            }
+
             vertices.erase(vertex);
         }
 
-- 
2.43.0


From b8a7b8831da0d3b0d03f4efcf54d80cdd363e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 02/56] fix: give memory-mapped tag maps their own storage
 before the file is remapped

---
 .../include/io/memory_mapped/storage/tag_storage.hpp  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/library/include/io/memory_mapped/storage/tag_storage.hpp b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
index a58f05b..4ec4598 100644
--- a/src/library/include/io/memory_mapped/storage/tag_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
@@ -733,6 +733,17 @@ namespace map_matching_2::io::memory_mapped::storage {
                     (tag_empty_identifier)(tag_vector_type{*_allocator});
             _finalized = _container.storage().template construct<bool>
                     (finalized_identifier)(false);
+
+            // an empty flat map without capacity points to static memory of this process instead of into the mapping,
+            // that pointer is invalid as soon as the file is mapped to a different address or by a different process
+            _id_key_map->reserve(1);
+            _key_id_map->reserve(1);
+            _id_value_map->reserve(1);
+            _value_id_map->reserve(1);
+            _tags_map->reserve(1);
+            _ids_map->reserve(1);
+            _nodes_map->reserve(1);
+            _edges_map->reserve(1);
         }
 
         void _open() {
-- 
2.43.0


From fdde0fd2ae634abe756d9b4b46d77befd5999f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 03/56] fix: simplify a pass-through node only when all of its
 directions can be merged

---
 src/library/include/geometry/network/network_import.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index bb69636..d352519 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -438,6 +438,11 @@ namespace map_matching_2::geometry::network {
                     }
                 }
             }
+
+            if (merge_edges.size() != in_edges_v.size()) {
+                // not all directions can be merged, so the vertex needs to stay and all its edges must stay connected
+                merge_edges.clear();
+            }
         }
 
         class vertex_visitor : public graph::visitor {
-- 
2.43.0


From 29a410e0ce6d3692831b52dea1724b5146aaf13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 04/56] fix: do not keep references to incidence list entries
 while removing duplicate nodes

---
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index d352519..2748cf1 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -186,7 +186,7 @@ namespace map_matching_2::geometry::network {
                     for (in_edge_val = in_edge_desc; in_edge_desc != in_edges_v.end(); in_edge_desc = in_edge_val) {
                         in_edge_val = in_edges_v.next(in_edge_val);
 
-                        const edge_descriptor &in_edge = in_edges_v[in_edge_desc];
+                        const edge_descriptor in_edge = in_edges_v[in_edge_desc];
                         edge_data_type &edge = edges_v[in_edge].get();
                         const vertex_descriptor source_vertex = graph.source(in_edge);
 
@@ -202,7 +202,7 @@ namespace map_matching_2::geometry::network {
                          out_edge_desc = out_edge_val) {
                         out_edge_val = out_edges_v.next(out_edge_val);
 
-                        const edge_descriptor &out_edge = out_edges_v[out_edge_desc];
+                        const edge_descriptor out_edge = out_edges_v[out_edge_desc];
                         edge_data_type &edge = edges_v[out_edge].get();
                         const vertex_descriptor target_vertex = graph.target(out_edge);
 
-- 
2.43.0


From 68416d6d8401c6f41b8c984a884bcca98bb5a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 05/56] fix: do not access an edge after it was removed as
 duplicate

---
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 2748cf1..f1fab08 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -255,9 +255,9 @@ namespace map_matching_2::geometry::network {
                 if (edge_set.contains(edge)) {
                     graph.remove_edge(edge_desc);
                     reindex = true;
+                } else {
+                    edge_set.emplace(edge);
                 }
-
-                edge_set.emplace(edge);
             }
 
             if (reindex) {
-- 
2.43.0


From f9ff9c10708eacd040f811d313b801200e5596f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 06/56] fix: simplify duplicate nodes only after all of their
 duplicates were merged

---
 .../geometry/network/network_import.hpp       | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index f1fab08..0ce27ed 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -159,6 +159,10 @@ namespace map_matching_2::geometry::network {
 
             boost::unordered_flat_map<point_type, vertex_descriptor> node_map;
 
+            // nodes that duplicates were merged into
+            boost::unordered_flat_set<vertex_size_type> merged_vertices_set;
+            std::vector<vertex_descriptor> merged_vertices;
+
             std::vector<std::pair<edge_descriptor, edge_descriptor>> adjacent_edges;
             std::vector<std::pair<edge_descriptor, edge_descriptor>> merge_edges;
 
@@ -213,24 +217,27 @@ namespace map_matching_2::geometry::network {
                     assert(graph.degree(vertex_desc) == 0);
                     graph.remove_vertex(vertex_desc);
 
-                    if (simplify) {
-                        // check if current node can be omitted
-                        if (_is_mergeable(existing_vertex_desc, adjacent_edges)) {
-                            _populate_merges(existing_vertex_desc, merge_edges, simplify_network_complete);
-
-                            if (not merge_edges.empty()) {
-                                for (const auto &merge_edge : merge_edges) {
-                                    _merge(merge_edge.first, merge_edge.second);
-                                }
+                    if (merged_vertices_set.emplace(graph.vertex_index(existing_vertex_desc)).second) {
+                        merged_vertices.emplace_back(existing_vertex_desc);
+                    }
+                } else {
+                    node_map.emplace(point, vertex_desc);
+                }
+            }
 
-                                merge_edges.clear();
-                            }
+            if (simplify) {
+                // simplify only after all duplicates are merged, a node may have more than one duplicate
+                for (const vertex_descriptor &merged_vertex_desc : merged_vertices) {
+                    // check if current node can be omitted
+                    if (_is_mergeable(merged_vertex_desc, adjacent_edges)) {
+                        _populate_merges(merged_vertex_desc, merge_edges, simplify_network_complete);
 
-                            node_map.erase(it);
+                        for (const auto &merge_edge : merge_edges) {
+                            _merge(merge_edge.first, merge_edge.second);
                         }
+
+                        merge_edges.clear();
                     }
-                } else {
-                    node_map.emplace(point, vertex_desc);
                 }
             }
 
-- 
2.43.0


From 6f4982d1a3a6278eecf5b583aaee4ec090bf6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 07/56] fix: remove only nodes that are not weakly connected to
 the largest component

---
 .../geometry/network/network_import.hpp       | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 0ce27ed..3edf82f 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -23,8 +23,6 @@
 
 #include "geometry/algorithm/reverse.hpp"
 
-#include "graph/algorithm/breadth_first_search.hpp"
-
 namespace map_matching_2::geometry::network {
 
     template<typename GraphHelper>
@@ -116,22 +114,22 @@ namespace map_matching_2::geometry::network {
 
         void remove_unconnected_components() {
             boost::unordered_flat_set<std::size_t> visited;
-            graph::queue_type<vertex_descriptor> queue;
 
             using discovered_type = std::vector<vertex_descriptor>;
             std::vector<discovered_type> components;
 
             const auto vertices_v = this->graph().vertices_view();
             for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
-                const auto vertex_index = this->graph().vertex_index(it);
-                if (not visited.contains(vertex_index)) {
-                    auto &discovered = components.emplace_back(discovered_type{});
-                    vertex_visitor vertex_visitor{discovered};
-
-                    graph::breadth_first_search(this->graph(), it, visited, queue, vertex_visitor);
+                if (visited.emplace(this->graph().vertex_index(it)).second) {
+                    auto &discovered = components.emplace_back(discovered_type{it});
+                    _discover_weakly_connected(discovered, visited);
                 }
             }
 
+            if (components.empty()) {
+                return;
+            }
+
             const auto component_comparator = [](const auto &a, const auto &b) {
                 return a.size() < b.size();
             };
@@ -452,21 +450,33 @@ namespace map_matching_2::geometry::network {
             }
         }
 
-        class vertex_visitor : public graph::visitor {
+        void _discover_weakly_connected(std::vector<vertex_descriptor> &discovered,
+                boost::unordered_flat_set<std::size_t> &visited) const {
+            const graph_type &graph = this->graph();
 
-        public:
-            explicit constexpr vertex_visitor(std::vector<vertex_descriptor> &discovered)
-                : _discovered{discovered} {}
+            const auto discover = [&](const vertex_descriptor &vertex_desc) {
+                if (visited.emplace(graph.vertex_index(vertex_desc)).second) {
+                    discovered.emplace_back(vertex_desc);
+                }
+            };
 
-            template<typename Graph>
-            void discover_vertex(const Graph &graph, typename Graph::vertex_descriptor vertex_desc) {
-                _discovered.emplace_back(vertex_desc);
-            }
+            // follow the edges against their direction, too, else weakly connected components would be torn apart
+            for (std::size_t i = 0; i < discovered.size(); ++i) {
+                const vertex_descriptor vertex_desc = discovered[i];
 
-        private:
-            std::vector<vertex_descriptor> &_discovered;
+                const auto out_edges_v = graph.out_edges_view(vertex_desc);
+                for (auto out_it = out_edges_v.begin();
+                     out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
+                    discover(graph.target(out_edges_v[out_it]));
+                }
 
-        };
+                const auto in_edges_v = graph.in_edges_view(vertex_desc);
+                for (auto in_it = in_edges_v.begin();
+                     in_it != in_edges_v.end(); in_it = in_edges_v.next(in_it)) {
+                    discover(graph.source(in_edges_v[in_it]));
+                }
+            }
+        }
 
     };
 
-- 
2.43.0


From b865856a97c69e5c9fa312aec29160dba9465ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 08/56] fix: apply the maximum routing distance to edges
 instead of nodes

An edge beyond the allowed distance disabled its target node for the whole
search, so the node was lost or reached over a longer path although another
edge found later leads to it within the allowed distance.
---
 .../include/geometry/network/network.hpp      | 27 +++++++------------
 .../graph/algorithm/a_star_shortest_path.hpp  |  4 +++
 .../algorithm/dijkstra_shortest_path.hpp      |  4 +++
 .../include/graph/algorithm/visitor.hpp       |  5 ++++
 4 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index a1721e4..8aecdfc 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -225,7 +225,7 @@ namespace map_matching_2::geometry::network {
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
             goals_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goals, goals_found, distances, colors, weight_func
+                    max_distance, max_distance_factor, goals, goals_found, distances, weight_func
             };
 
             graph::dijkstra_shortest_path(this->graph(), start,
@@ -273,7 +273,7 @@ namespace map_matching_2::geometry::network {
             };
 
             goal_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goal, distances, colors, weight_func
+                    max_distance, max_distance_factor, goal, distances, weight_func
             };
 
             graph::a_star_shortest_path(this->graph(), start, goal,
@@ -410,27 +410,23 @@ namespace map_matching_2::geometry::network {
             constexpr base_max_distance_visitor(const distance_type max_distance,
                     const double max_distance_factor,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
                 : _max_distance{max_distance}, _max_distance_factor{max_distance_factor}, _distances{distances},
-                _colors{colors}, _weight_func{weight_func} {}
+                _weight_func{weight_func} {}
 
-            void examine_edge(const graph_type &graph,
-                    const typename graph::graph_traits<graph_type>::edge_descriptor &edge_desc) {
+            [[nodiscard]] bool skip_edge(const graph_type &graph,
+                    const typename graph::graph_traits<graph_type>::edge_descriptor &edge_desc) const {
                 if (_max_distance_factor < 0.0) {
                     // effectively disable this method if the max-distance-factor is disabled
-                    return;
+                    return false;
                 }
 
                 const vertex_descriptor &source = graph.source(edge_desc);
                 const auto distance_source = _distances[source];
                 const auto weight = _weight_func(graph.get_edge_data(edge_desc));
                 const auto distance_target = distance_source + weight;
-                if (distance_target > _max_distance_factor * _max_distance) {
-                    // disable target
-                    const vertex_descriptor &target = graph.target(edge_desc);
-                    _colors[target] = graph::color::BLACK;
-                }
+                // only this edge leaves the allowed distance, the target might still be reachable over other edges
+                return distance_target > _max_distance_factor * _max_distance;
             }
 
         private:
@@ -438,7 +434,6 @@ namespace map_matching_2::geometry::network {
             const double _max_distance_factor;
 
             graph::distances_type<length_type> &_distances;
-            graph::colors_type &_colors;
             const WeightFunc &_weight_func;
 
         };
@@ -454,9 +449,8 @@ namespace map_matching_2::geometry::network {
                     const boost::unordered_flat_set<vertex_descriptor> &goals,
                     boost::unordered_flat_set<vertex_descriptor> &goals_found,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                : base_type{max_distance, max_distance_factor, distances, weight_func},
                 _goals{goals}, _goals_found{goals_found} {}
 
             void finish_vertex(const graph_type &graph,
@@ -486,9 +480,8 @@ namespace map_matching_2::geometry::network {
                     const double max_distance_factor,
                     const vertex_descriptor &goal,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                : base_type{max_distance, max_distance_factor, distances, weight_func},
                 _goal{goal} {}
 
             void finish_vertex(const graph_type &graph,
diff --git a/src/library/include/graph/algorithm/a_star_shortest_path.hpp b/src/library/include/graph/algorithm/a_star_shortest_path.hpp
index 35278ed..7b3d5c4 100644
--- a/src/library/include/graph/algorithm/a_star_shortest_path.hpp
+++ b/src/library/include/graph/algorithm/a_star_shortest_path.hpp
@@ -82,6 +82,10 @@ namespace map_matching_2::graph {
 
                 visitor.examine_edge(graph, *edge_desc);
 
+                if (visitor.skip_edge(graph, *edge_desc)) {
+                    continue;
+                }
+
                 const auto &target_desc = graph.target(*edge_desc);
                 const auto target_index = graph.vertex_index(target_desc);
 
diff --git a/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp b/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
index 61d2190..57e44d5 100644
--- a/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
+++ b/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
@@ -81,6 +81,10 @@ namespace map_matching_2::graph {
 
                 visitor.examine_edge(graph, *edge_desc);
 
+                if (visitor.skip_edge(graph, *edge_desc)) {
+                    continue;
+                }
+
                 const auto &target_desc = graph.target(*edge_desc);
                 const auto target_index = graph.vertex_index(target_desc);
 
diff --git a/src/library/include/graph/algorithm/visitor.hpp b/src/library/include/graph/algorithm/visitor.hpp
index 4b5cdf6..e2026e7 100644
--- a/src/library/include/graph/algorithm/visitor.hpp
+++ b/src/library/include/graph/algorithm/visitor.hpp
@@ -38,6 +38,11 @@ namespace map_matching_2::graph {
         template<typename Graph>
         void examine_edge(const Graph &graph, const typename Graph::edge_descriptor &edge_desc) {}
 
+        template<typename Graph>
+        [[nodiscard]] bool skip_edge(const Graph &graph, const typename Graph::edge_descriptor &edge_desc) const {
+            return false;
+        }
+
         template<typename Graph>
         void finish_vertex(const Graph &graph, const typename Graph::vertex_descriptor &vertex_desc) {}
 
-- 
2.43.0


From 290f1a5a40891850adc65d36a6e275f5235fb7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 09/56] fix: route over edges that connect nodes at the same
 position

Such an edge has no valid length, which was used as its cost.
---
 src/library/include/geometry/network/network.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 8aecdfc..29a77e0 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -219,8 +219,11 @@ namespace map_matching_2::geometry::network {
                 graph::distances_type<length_type> &distances,
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
-            constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+            constexpr auto weight_func = [](const edge_data_type &edge) constexpr -> length_type {
+                // an edge between nodes at the same position has no length
+                return edge.rich_line.has_length()
+                           ? edge.rich_line.length()
+                           : geometry::default_float_type<length_type>::v0;
             };
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
@@ -261,8 +264,11 @@ namespace map_matching_2::geometry::network {
                 graph::distances_type<length_type> &distances,
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
-            constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+            constexpr auto weight_func = [](const edge_data_type &edge) constexpr -> length_type {
+                // an edge between nodes at the same position has no length
+                return edge.rich_line.has_length()
+                           ? edge.rich_line.length()
+                           : geometry::default_float_type<length_type>::v0;
             };
 
             const auto heuristic_func = [this](const vertex_descriptor &vertex_desc,
-- 
2.43.0


From 3cd709ee6745b217d47b03b364785d5537a4dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 10/56] fix: report no path when the A* search does not find
 its goal

The predecessors were followed from a goal without predecessor, which lead
over the first node of the network to a path that does not exist.
---
 src/library/include/geometry/network/network.hpp | 11 +++++++----
 src/library/include/matching/algorithm/route.hpp |  7 +++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 29a77e0..7f4a18e 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -286,10 +286,13 @@ namespace map_matching_2::geometry::network {
                     predecessors, distances, colors, queue, visitor, weight_func, heuristic_func);
 
             std::list<vertex_descriptor> shortest_path;
-            for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
-                shortest_path.emplace_front(vertex);
-                if (predecessors[vertex] == vertex)
-                    break;
+            if (predecessors.contains(goal)) {
+                // without a predecessor, the goal was not found and the path stays empty
+                for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
+                    shortest_path.emplace_front(vertex);
+                    if (predecessors[vertex] == vertex)
+                        break;
+                }
             }
 
             predecessors.clear();
diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 1101e13..b400e44 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -117,8 +117,11 @@ namespace map_matching_2::matching {
 
                 std::vector<std::list<vertex_descriptor>> shortest_paths;
                 if (a_star) {
-                    shortest_paths.emplace_back(
-                            this->shortest_path(candidates, from, source, to, target, max_distance_factor));
+                    auto shortest_path = this->shortest_path(
+                            candidates, from, source, to, target, max_distance_factor);
+                    if (not shortest_path.empty()) {
+                        shortest_paths.emplace_back(std::move(shortest_path));
+                    }
                 } else {
                     shortest_paths = this->shortest_paths(candidates, from, source, to, max_distance_factor);
                 }
-- 
2.43.0


From 4c60f6c909608e4c65a825e0ff6162c260d55c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 11/56] fix: choose the shortest of parallel edges when one of
 them has no length

---
 src/library/include/geometry/network/network.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 7f4a18e..2041f7d 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -326,11 +326,11 @@ namespace map_matching_2::geometry::network {
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
                         if (this->graph().target(it) == *next_vertex_it) {
                             const edge_data_type &edge = this->graph().get_edge_data(it);
-                            if (not edge.rich_line.empty() and
-                                (not edge.rich_line.has_length() or edge.rich_line.length() < shortest_length)) {
-                                if (edge.rich_line.has_length()) {
-                                    shortest_length = edge.rich_line.length();
-                                }
+                            const length_type length = edge.rich_line.has_length()
+                                                           ? edge.rich_line.length()
+                                                           : default_float_type<length_type>::v0;
+                            if (not edge.rich_line.empty() and length < shortest_length) {
+                                shortest_length = length;
                                 rich_line_ptr = &edge.rich_line;
                             }
                         }
-- 
2.43.0


From 4f0697c4e437b679bfcbe7233a95112fa6ac4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 12/56] fix: use a distance that never overestimates as A*
 heuristic

The difference of the coordinates is not a lower bound of the distance across
the 180th meridian, near the poles and for spherical coordinates.
---
 src/library/include/geometry/network/network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 2041f7d..f551cc4 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -273,7 +273,7 @@ namespace map_matching_2::geometry::network {
 
             const auto heuristic_func = [this](const vertex_descriptor &vertex_desc,
                     const vertex_descriptor &goal_desc) constexpr {
-                return geometry::euclidean_distance(
+                return geometry::distance(
                         this->graph().get_vertex_data(vertex_desc).point,
                         this->graph().get_vertex_data(goal_desc).point);
             };
-- 
2.43.0


From 4e6d8634643be557323f5829894f37fd1c720f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 13/56] fix: undo giving memory-mapped tag maps their own
 storage

With the Boost version that is installed here (1.83) unordered_flat_map keeps raw
pointers, so a map with storage of its own does not survive a remap, while an empty
one without storage does.
---
 .../include/io/memory_mapped/storage/tag_storage.hpp  | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/library/include/io/memory_mapped/storage/tag_storage.hpp b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
index 4ec4598..a58f05b 100644
--- a/src/library/include/io/memory_mapped/storage/tag_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
@@ -733,17 +733,6 @@ namespace map_matching_2::io::memory_mapped::storage {
                     (tag_empty_identifier)(tag_vector_type{*_allocator});
             _finalized = _container.storage().template construct<bool>
                     (finalized_identifier)(false);
-
-            // an empty flat map without capacity points to static memory of this process instead of into the mapping,
-            // that pointer is invalid as soon as the file is mapped to a different address or by a different process
-            _id_key_map->reserve(1);
-            _key_id_map->reserve(1);
-            _id_value_map->reserve(1);
-            _value_id_map->reserve(1);
-            _tags_map->reserve(1);
-            _ids_map->reserve(1);
-            _nodes_map->reserve(1);
-            _edges_map->reserve(1);
         }
 
         void _open() {
-- 
2.43.0


From 50fda6ca599ff4b91b043607c6802e70c6cf6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 14/56] fix: keep memory-mapped tag maps valid after a remap
 with Boost before 1.84

unordered_flat_map stores raw pointers before Boost 1.84, so every tag of a
memory-mapped store was lost (and the process crashed) once the file was
grown or reopened at another address.
---
 .../io/memory_mapped/storage/tag_storage.hpp  | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/library/include/io/memory_mapped/storage/tag_storage.hpp b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
index a58f05b..0725eb8 100644
--- a/src/library/include/io/memory_mapped/storage/tag_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/tag_storage.hpp
@@ -26,6 +26,9 @@
 #include <boost/serialization/string.hpp>
 #include <boost/serialization/unique_ptr.hpp>
 
+#include <boost/version.hpp>
+
+#include <boost/unordered/unordered_map.hpp>
 #include <boost/unordered/unordered_flat_map.hpp>
 
 #include <boost/interprocess/containers/string.hpp>
@@ -36,6 +39,15 @@
 
 namespace map_matching_2::io::memory_mapped::storage {
 
+    // unordered_flat_map stores raw pointers before Boost 1.84, which are invalid after a mapped file was remapped
+#if BOOST_VERSION >= 108400
+    template<typename Key, typename T, typename Hash, typename Pred, typename Allocator>
+    using mapped_map = boost::unordered_flat_map<Key, T, Hash, Pred, Allocator>;
+#else
+    template<typename Key, typename T, typename Hash, typename Pred, typename Allocator>
+    using mapped_map = boost::unordered_map<Key, T, Hash, Pred, Allocator>;
+#endif
+
     template<typename StringA, typename StringB>
     struct tag_comparator;
 
@@ -418,15 +430,15 @@ namespace map_matching_2::io::memory_mapped::storage {
         using vector_allocator_type = typename types::template allocator_traits_type<
             allocator_type>::template rebind_alloc<std::pair<const std::uint64_t, tag_vector_type>>;
 
-        using key_map_type = boost::unordered_flat_map<std::uint64_t, string_type,
+        using key_map_type = mapped_map<std::uint64_t, string_type,
             boost::hash<std::uint64_t>, std::equal_to<>, key_allocator_type>;
-        using value_map_type = boost::unordered_flat_map<string_type, std::uint64_t,
+        using value_map_type = mapped_map<string_type, std::uint64_t,
             tag_hash<std::string, string_type>, tag_comparator<std::string, string_type>, value_allocator_type>;
-        using tags_map_type = boost::unordered_flat_map<std::uint64_t, pair_type,
+        using tags_map_type = mapped_map<std::uint64_t, pair_type,
             boost::hash<std::uint64_t>, std::equal_to<>, tags_allocator_type>;
-        using ids_map_type = boost::unordered_flat_map<pair_type, std::uint64_t,
+        using ids_map_type = mapped_map<pair_type, std::uint64_t,
             boost::hash<pair_type>, std::equal_to<>, ids_allocator_type>;
-        using vector_map_type = boost::unordered_flat_map<std::uint64_t, tag_vector_type,
+        using vector_map_type = mapped_map<std::uint64_t, tag_vector_type,
             boost::hash<std::uint64_t>, std::equal_to<>, vector_allocator_type>;
 
         constexpr static const char *tag_id_key_identifier = "tag-id-key";
-- 
2.43.0


From f01a48635ffe0d30825addd61cc95c33192efad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 15/56] fix: retry mapping of tags as a whole when the
 memory-mapped storage grows

Tag lists created in the storage before it was grown were used (and destroyed)
afterwards, although they point into the file mapping that was closed.
---
 src/library/include/io/helper/tag_helper.hpp | 96 ++++++++------------
 1 file changed, 36 insertions(+), 60 deletions(-)

diff --git a/src/library/include/io/helper/tag_helper.hpp b/src/library/include/io/helper/tag_helper.hpp
index 41a719a..19cfab5 100644
--- a/src/library/include/io/helper/tag_helper.hpp
+++ b/src/library/include/io/helper/tag_helper.hpp
@@ -263,78 +263,60 @@ namespace map_matching_2::io::helper {
             }
         }
 
-        [[nodiscard]] tag_vector_type tags(const osmium::TagList &tag_list) {
-            const auto &_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tag_list.size());
-                for (const auto &tag : tag_list) {
-                    tags_container.emplace_back(id(tag.key(), tag.value(), false));
-                }
-                return tags_container;
-            };
+        // the following containers live in the storage and do not survive growing it, so the callers retry as a whole
 
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _tags();
+        [[nodiscard]] tag_vector_type tags(const osmium::TagList &tag_list) {
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tag_list.size());
+            for (const auto &tag : tag_list) {
+                tags_container.emplace_back(id(tag.key(), tag.value(), false));
             }
+            return tags_container;
         }
 
         template<typename TagsT>
         [[nodiscard]] tag_vector_type copy_tags(const TagsT &tags) {
-            const auto &_copy_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _copy_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _copy_tags();
-            }
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tags.size());
+            std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
+            return tags_container;
         }
 
         template<typename TagsT, typename TagHelperT>
         [[nodiscard]] tag_vector_type clone_tags(const TagsT &tags, const TagHelperT &other) {
-            const auto &_clone_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                for (const auto &tag_id : tags) {
-                    // clones tag data from other tag_storage to this tag_storage
-                    auto tag = other.tag(tag_id);
-                    tags_container.emplace_back(id(tag.first, tag.second, false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _clone_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _clone_tags();
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tags.size());
+            for (const auto &tag_id : tags) {
+                // clones tag data from other tag_storage to this tag_storage
+                auto tag = other.tag(tag_id);
+                tags_container.emplace_back(id(tag.first, tag.second, false));
             }
+            return tags_container;
         }
 
         void set_map_tags(const std::uint64_t id, tag_vector_type &&tags, MAP_TAGS map_tag) {
+            if (not tags.empty()) {
+                if constexpr (is_mmap_tag_helper<tag_helper>) {
+                    // the given tags live in the storage and do not survive growing it
+                    const std::vector<std::uint64_t> tag_ids(std::cbegin(tags), std::cend(tags));
+                    {
+                        tag_vector_type consumed_tags{std::move(tags)};
+                    }
+                    copy_map_tags(id, tag_ids, map_tag);
+                } else {
+                    auto &map = get_map(map_tag);
+                    map.emplace(id, std::move(tags));
+                }
+            }
+        }
+
+        void set_map_tags(const std::uint64_t id, const osmium::TagList &tag_list, MAP_TAGS map_tag) {
             const auto &_set_map_tags = [&]() {
                 auto &map = get_map(map_tag);
-                map.emplace(id, std::move(tags));
+                map.emplace(id, tags(tag_list));
             };
 
-            if (not tags.empty()) {
+            if (not tag_list.empty()) {
                 if constexpr (is_mmap_tag_helper<tag_helper>) {
                     memory_mapped::retry_alloc([&]() {
                                 _set_map_tags();
@@ -347,12 +329,6 @@ namespace map_matching_2::io::helper {
             }
         }
 
-        void set_map_tags(const std::uint64_t id, const osmium::TagList &tag_list, MAP_TAGS map_tag) {
-            if (not tag_list.empty()) {
-                set_map_tags(id, tags(tag_list), map_tag);
-            }
-        }
-
         template<typename TagsT>
         void copy_map_tags(const std::uint64_t id, const TagsT &tags, MAP_TAGS map_tag) {
             const auto &_copy_map_tags = [&]() {
-- 
2.43.0


From 08f1eecf93a9e315ca8c208d86341c73d96218ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 16/56] fix: grow memory-mapped storages by whole pages

The memory algorithm of Boost.Interprocess cannot manage additional space
that is smaller than a block and corrupts the storage (segmentation fault)
when a storage is grown by a few bytes only, which happens when the size of
the source of an import is just above the current size.
---
 .../include/io/memory_mapped/storage/base_storage.hpp  | 10 +++++++---
 src/library/include/io/memory_mapped/utils.hpp         |  2 ++
 src/library/src/io/memory_mapped/utils.cpp             |  5 +++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/library/include/io/memory_mapped/storage/base_storage.hpp b/src/library/include/io/memory_mapped/storage/base_storage.hpp
index f9abfec..7d906a3 100644
--- a/src/library/include/io/memory_mapped/storage/base_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/base_storage.hpp
@@ -377,8 +377,10 @@ namespace map_matching_2::io::memory_mapped::storage {
         void grow(const std::size_t size) {
             const std::size_t offset = this->size();
             if (size > offset) {
+                // the memory algorithm cannot manage additional space smaller than a block, so grow by whole pages
+                const std::size_t extra = page_aligned_size(size - offset);
                 this->close();
-                mmap_type::grow(_name.c_str(), size - offset);
+                mmap_type::grow(_name.c_str(), extra);
                 open();
             }
         }
@@ -475,12 +477,14 @@ namespace map_matching_2::io::memory_mapped::storage {
         void grow(const std::size_t size) {
             const std::size_t offset = this->size();
             if (size > offset) {
+                // the memory algorithm cannot manage additional space smaller than a block, so grow by whole pages
+                const std::size_t extra = page_aligned_size(size - offset);
                 this->close();
                 const std::string path_str = _path.string();
 #if defined(MM2_WINDOWS)
-                base_type::_grow_file(path_str, offset, size);
+                base_type::_grow_file(path_str, offset, offset + extra);
 #else
-                mmap_type::grow(path_str.c_str(), size - offset);
+                mmap_type::grow(path_str.c_str(), extra);
 #endif
                 open();
             }
diff --git a/src/library/include/io/memory_mapped/utils.hpp b/src/library/include/io/memory_mapped/utils.hpp
index 46fb9b2..dd7f750 100644
--- a/src/library/include/io/memory_mapped/utils.hpp
+++ b/src/library/include/io/memory_mapped/utils.hpp
@@ -95,6 +95,8 @@ namespace map_matching_2::io::memory_mapped {
 
     [[nodiscard]] std::size_t get_total_memory();
 
+    [[nodiscard]] std::size_t page_aligned_size(std::size_t size);
+
     enum SPARSE_STATUS {
         NO_SPARSE_FILE,
         IS_SPARSE_FILE
diff --git a/src/library/src/io/memory_mapped/utils.cpp b/src/library/src/io/memory_mapped/utils.cpp
index 062adab..c9b70d5 100644
--- a/src/library/src/io/memory_mapped/utils.cpp
+++ b/src/library/src/io/memory_mapped/utils.cpp
@@ -45,6 +45,11 @@ namespace map_matching_2::io::memory_mapped {
         return memory;
     }
 
+    [[nodiscard]] std::size_t page_aligned_size(const std::size_t size) {
+        const std::size_t page_size = boost::interprocess::mapped_region::get_page_size();
+        return (size + page_size - 1) / page_size * page_size;
+    }
+
 #if defined(MM2_WINDOWS)
 
     SPARSE_STATUS make_sparse_file(const std::string &file) {
-- 
2.43.0


From 727616e26e1fd1cbe160bd47cfe62ac698ed3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 17/56] fix: drop cached totals when a part of a line is
 extracted

sub_data decremented 'to' to a segment index but still compared it with the
full number of segments minus one, so the line without its last point kept
the length, azimuth and directions of the whole line.
---
 .../geometry/rich_type/rich_line_data.hpp        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 5ece7a1..db49f1f 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -476,10 +476,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to}
                     : length_container_type{},
@@ -498,10 +498,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{allocator};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to, allocator}
                     : length_container_type{allocator},
-- 
2.43.0


From 9d7a7541307525f28b64b1663ce4165f0c9b3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 18/56] fix: per-position directions of lazy lines

_initialize_direction threw out_of_range after it had initialized the
azimuths, so no direction could be queried from a lazy line.
---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index db49f1f..c8e065e 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -437,6 +437,7 @@ namespace map_matching_2::geometry {
             if (pos + 1 < _azimuths.size()) {
                 _initialize_azimuth(rich_line, pos);
                 _initialize_azimuth(rich_line, pos + 1);
+                return;
             }
 
             throw std::out_of_range(std::format(
-- 
2.43.0


From c5bb20bc3aa65a6707b25289c8b738058a03b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 19/56] fix: discard cached measures when a line is assigned
 from another type

The converting assignments appended to or kept the measures of the line that
was overwritten.
---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp     | 2 ++
 src/library/include/geometry/rich_type/eager_rich_line.hpp   | 2 ++
 .../include/geometry/rich_type/eager_rich_segment.hpp        | 1 +
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp      | 1 +
 src/library/include/geometry/rich_type/lazy_rich_line.hpp    | 1 +
 src/library/include/geometry/rich_type/lazy_rich_segment.hpp | 1 +
 src/library/include/geometry/rich_type/rich_line_data.hpp    | 2 ++
 src/library/include/geometry/rich_type/rich_segment_data.hpp | 5 +++++
 8 files changed, 15 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 8747488..eea159a 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -130,6 +130,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         eager_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -139,6 +140,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT = Allocator>
         eager_multi_rich_line &
         operator=(const lazy_multi_rich_line<RichLineTypeT, ContainerT, AllocatorT> &other) {
+            multi_rich_line_data_base_type::_invalidate();
             multi_rich_line_data_base_type::_length = other.length();
             multi_rich_line_data_base_type::_azimuth = other.azimuth();
             multi_rich_line_data_base_type::_directions = other.directions();
diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 96f2bf4..0b186e3 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -193,6 +193,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         eager_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -200,6 +201,7 @@ namespace map_matching_2::geometry {
         template<template<typename, typename> typename ContainerT,
             template<typename> typename AllocatorT>
         eager_rich_line &operator=(const lazy_rich_line<point_type, ContainerT, AllocatorT> &other) {
+            rich_line_data_base_type::_invalidate();
             rich_line_data_base_type::_length = other.length();
             rich_line_data_base_type::_azimuth = other.azimuth();
             rich_line_data_base_type::_directions = other.directions();
diff --git a/src/library/include/geometry/rich_type/eager_rich_segment.hpp b/src/library/include/geometry/rich_type/eager_rich_segment.hpp
index c757eba..1df1fad 100644
--- a/src/library/include/geometry/rich_type/eager_rich_segment.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_segment.hpp
@@ -115,6 +115,7 @@ namespace map_matching_2::geometry {
         template<typename SegmentT>
         constexpr eager_rich_segment &operator=(const rich_segment<SegmentT> &other) {
             rich_segment_base_type::operator=(other);
+            rich_segment_data_base_type::_invalidate();
             rich_segment_data_base_type::_compute(*this);
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index e30ba5e..1cfc9c5 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -113,6 +113,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         constexpr lazy_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b60a459..131d5c9 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -162,6 +162,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         constexpr lazy_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_segment.hpp b/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
index f2b2114..06f32d2 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
@@ -107,6 +107,7 @@ namespace map_matching_2::geometry {
         template<typename SegmentT>
         constexpr lazy_rich_segment &operator=(const rich_segment<SegmentT> &other) {
             rich_segment_base_type::operator=(other);
+            rich_segment_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index c8e065e..d56911f 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -117,6 +117,8 @@ namespace map_matching_2::geometry {
             _azimuth = other.azimuth();
             _directions = other.directions();
             _absolute_directions = other.absolute_directions();
+            _lengths.clear();
+            _azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()), std::back_inserter(_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()), std::back_inserter(_azimuths));
             return *this;
diff --git a/src/library/include/geometry/rich_type/rich_segment_data.hpp b/src/library/include/geometry/rich_type/rich_segment_data.hpp
index e9e8809..fd807ce 100644
--- a/src/library/include/geometry/rich_type/rich_segment_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_segment_data.hpp
@@ -95,6 +95,11 @@ namespace map_matching_2::geometry {
             return geometry::equals_points(rich_segment.first(), rich_segment.second());
         }
 
+        void _invalidate() const {
+            _length = not_initialized<length_type>;
+            _azimuth = not_initialized<angle_type>;
+        }
+
         void _compute_length(const is_rich_segment auto &rich_segment) const {
             if (not initialized(_length)) {
                 _length = not_valid<length_type>;
-- 
2.43.0


From 713508071455de8b0da4fcacefa6a969bd177718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 20/56] fix: recompute the azimuth of a line when its last
 point is erased

The size is compared after the point has been removed, so the flag was set
for the last but one point instead of the last one.
---
 src/library/include/geometry/rich_type/eager_rich_line.hpp | 2 +-
 src/library/include/geometry/rich_type/lazy_rich_line.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 0b186e3..6bb0992 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -318,7 +318,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (rebuild) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_rebuild(*this, true, azimuth, true);
             }
         }
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index 131d5c9..eb699bc 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -307,7 +307,7 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (invalidate) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_invalidate(true, azimuth, true, false, false);
             }
         }
-- 
2.43.0


From 071036a682c87656570c26b607d055a472c63a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 21/56] fix: compute the azimuth of single segment lines that
 were merged

_compute_directions initialized azimuths only where there were two of them,
so a merged lazy line with one segment handed an uninitialized azimuth to the
eager line created from it.
---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index d56911f..a24802a 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -405,6 +405,10 @@ namespace map_matching_2::geometry {
 
                 _compute_azimuths(rich_line);
 
+                for (std::size_t i = 0; i < _azimuths.size(); ++i) {
+                    _initialize_azimuth(rich_line, i);
+                }
+
                 if (_azimuths.size() >= 2) {
                     bool has_directions = false;
                     angle_type directions = default_float_type<angle_type>::v0;
-- 
2.43.0


From 23a5ee54c9b1ba36ce660b11ebf642dba2bdef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 22/56] fix: forget cached measures when a multi line is
 extended

merge was inherited from the plain multi line, so lazy and eager multi lines
kept the length and angles from before the merge.
---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp  | 8 ++++++++
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index eea159a..2842ff6 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -163,6 +163,14 @@ namespace map_matching_2::geometry {
 
         constexpr ~eager_multi_rich_line() = default;
 
+        template<is_rich_line RichLineT>
+        eager_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::merge(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            multi_rich_line_data_base_type::_compute(*this);
+            return *this;
+        }
+
         [[nodiscard]] constexpr bool has_length() const {
             return multi_rich_line_data_base_type::has_length();
         }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index 1cfc9c5..c6c901f 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -137,6 +137,13 @@ namespace map_matching_2::geometry {
 
         constexpr ~lazy_multi_rich_line() = default;
 
+        template<is_rich_line RichLineT>
+        lazy_multi_rich_line &merge(std::vector<RichLineT> &&rich_lines) {
+            multi_rich_line_base_type::merge(std::move(rich_lines));
+            multi_rich_line_data_base_type::_invalidate();
+            return *this;
+        }
+
         [[nodiscard]] bool has_length() const {
             multi_rich_line_data_base_type::_compute_length(*this);
             return multi_rich_line_data_base_type::has_length();
-- 
2.43.0


From ccadf7ed1bf46beac02e6c586065dd39e6537799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 23/56] fix: keep own lines of a partially referencing route
 when cutting it

Searching the own lines for a line that is only referenced skipped all of
them, so all following own lines were referenced instead of copied and
dangled when the cut route was gone.
---
 .../include/geometry/network/route/route.hpp  | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 6688258..012993d 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -480,24 +480,21 @@ namespace map_matching_2::geometry::network {
                 // rich line copyer
                 auto copy_rich_line = [&](const rich_line_reference_variant_type &rich_line_ref,
                         auto &next_rich_it, const auto &end_rich_it) {
-                    bool data_moved = false;
-                    while (next_rich_it != end_rich_it) {
-                        const rich_line_variant_type &next_rich_line = *next_rich_it;
-                        if (_equal_reference(next_rich_line, rich_line_ref)) {
-                            // reference has local data, move it
-                            const auto &_own_rich_line = new_rich_lines.emplace_back(next_rich_line);
-                            std::visit([&new_references](auto &&_rich_line) {
-                                new_references.emplace_back(std::cref(_rich_line));
-                            }, _own_rich_line);
-                            ++next_rich_it;
-                            data_moved = true;
-                            break;
-                        }
-                        ++next_rich_it;
+                    // search local data, keep position for next reference when there is none
+                    auto search_it = next_rich_it;
+                    while (search_it != end_rich_it and not _equal_reference(*search_it, rich_line_ref)) {
+                        ++search_it;
                     }
 
-                    // only reference movement
-                    if (not data_moved) {
+                    if (search_it != end_rich_it) {
+                        // reference has local data, copy it
+                        const auto &_own_rich_line = new_rich_lines.emplace_back(*search_it);
+                        std::visit([&new_references](auto &&_rich_line) {
+                            new_references.emplace_back(std::cref(_rich_line));
+                        }, _own_rich_line);
+                        next_rich_it = std::next(search_it);
+                    } else {
+                        // only reference movement
                         new_references.emplace_back(rich_line_ref);
                     }
                 };
-- 
2.43.0


From d1574c30c74164086279c68694767e1fe0dcc590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 24/56] fix: cut a route on both sides within the same line

The first cut skipped the line, so the second one was reported as out of range.
---
 src/library/include/geometry/network/route/route.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 012993d..ac800ed 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -524,6 +524,15 @@ namespace map_matching_2::geometry::network {
                 std::vector<_route_type> routes{};
                 routes.reserve(to - from + 2); // plus two for possible from_pos and to_pos sub_rich_lines
 
+                if (from + 1 == to and from_pos > 0 and from_pos <= to_pos and to_pos < _size(_rich_lines[from])) {
+                    // both positions are within the same rich line
+                    routes.emplace_back(_route_type{
+                            _as<_rich_line_type>(_rich_lines[from]).sub_rich_line(from_pos, to_pos)
+                    });
+
+                    return merge<_rich_line_type, _route_type>(std::move(routes));
+                }
+
                 if (from_pos > 0) {
                     routes.emplace_back(_route_type{
                             _as<_rich_line_type>(_rich_lines[from]).
-- 
2.43.0


From 96c8058c759e702c9e9e5b65b8242af74c89ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 25/56] fix: forget measures of joined routes

Joining changes the lines of both routes in place, but lazy and eager routes
kept length, azimuth and directions from before.
---
 src/library/include/geometry/network/route/eager_route.hpp | 6 +++++-
 src/library/include/geometry/network/route/lazy_route.hpp  | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index 1cd7fc5..cfeedd6 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -161,7 +161,11 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = eager_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            b._invalidate();
+            a._compute(a);
+            b._compute(b);
         }
 
     };
diff --git a/src/library/include/geometry/network/route/lazy_route.hpp b/src/library/include/geometry/network/route/lazy_route.hpp
index ff585e4..5a4040a 100644
--- a/src/library/include/geometry/network/route/lazy_route.hpp
+++ b/src/library/include/geometry/network/route/lazy_route.hpp
@@ -163,7 +163,9 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = lazy_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            b._invalidate();
         }
 
     };
-- 
2.43.0


From 00a74cfe49dfabd6eef3fefc5363c9c5c464ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 26/56] fix: eager routes without lines are connected like
 other routes

---
 .../include/geometry/network/route/eager_route.hpp        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index cfeedd6..e3885fe 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -50,10 +50,14 @@ namespace map_matching_2::geometry::network {
         using route_data_base_type = route_data<length_type, angle_type>;
         using route_base_type = route<rich_line_variant_type>;
 
-        constexpr eager_route() = default;
+        constexpr eager_route() {
+            route_data_base_type::_compute(*this);
+        }
 
         constexpr explicit eager_route(bool is_invalid)
-            : route_data_base_type{}, route_base_type{is_invalid} {}
+            : route_data_base_type{}, route_base_type{is_invalid} {
+            route_data_base_type::_compute(*this);
+        }
 
         template<is_rich_line RichLine>
         explicit eager_route(RichLine rich_line) requires
-- 
2.43.0


From 69a579170e2490dcf68412c4847c55a2b3b479c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 27/56] fix: no turning angle towards a line with a single
 point in routes

Computing the directions of such a route failed with an out of range error.
---
 src/library/include/geometry/network/route/route.hpp      | 6 +++---
 src/library/include/geometry/network/route/route_data.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index ac800ed..daa85fc 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -292,7 +292,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // has direction only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 return true;
@@ -332,7 +332,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // add direction inbetween only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
@@ -383,7 +383,7 @@ namespace map_matching_2::geometry::network {
                         // check if rich lines are attached
                         if (_attaches(curr_rich_line, next_rich_line)) {
                             // add direction inbetween only when attached
-                            if (_size(curr_rich_line) >= 2 and
+                            if (_size(curr_rich_line) >= 2 and _size(next_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
                                 _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
diff --git a/src/library/include/geometry/network/route/route_data.hpp b/src/library/include/geometry/network/route/route_data.hpp
index 667cbff..93de2f4 100644
--- a/src/library/include/geometry/network/route/route_data.hpp
+++ b/src/library/include/geometry/network/route/route_data.hpp
@@ -241,7 +241,7 @@ namespace map_matching_2::geometry::network {
                             if (route_type::_attaches(curr_rich_line, next_rich_line)) {
                                 // add direction inbetween only when attached
                                 const auto _curr_size = route_type::_size(curr_rich_line);
-                                if (_curr_size >= 2 and
+                                if (_curr_size >= 2 and route_type::_size(next_rich_line) >= 2 and
                                     route_type::_has_azimuth(curr_rich_line, _curr_size - 2) and
                                     route_type::_has_azimuth(next_rich_line, 0)) {
                                     const auto direction = geometry::direction_deg(
-- 
2.43.0


From e2a2b27da52c8f063a3cede1cff1675f304cf350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 28/56] fix: cutting lines with repeated points does not fail

---
 .../include/geometry/algorithm/substring.hpp  | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index c7dd192..4db2219 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -76,7 +76,9 @@ namespace map_matching_2::geometry {
             bool found{false};
             for (std::size_t i = 0; i < line.size() - 1; ++i) {
                 const auto segment = rich_line.rich_referring_segment(i);
-                current_distance += segment.length();
+                if (segment.has_length()) {
+                    current_distance += segment.length();
+                }
 
                 if (not found and current_distance > from_distance) {
                     from_index = i + 1;
@@ -113,6 +115,13 @@ namespace map_matching_2::geometry {
             typename rich_line_traits<RichLine>::length_type from_distance,
             const typename rich_line_traits<RichLine>::point_type &from_point = {},
             const bool use_from_point = false) {
+        using rich_line_type = RichLine;
+
+        if (not rich_line.has_length()) {
+            // nothing to cut in a line without extent
+            return rich_line_type{};
+        }
+
         return substring(rich_line, from_distance, rich_line.length(),
                 from_point, rich_line.back(), use_from_point, true);
     }
@@ -126,6 +135,11 @@ namespace map_matching_2::geometry {
         using rich_line_type = RichLine;
         using length_type = typename rich_line_traits<rich_line_type>::length_type;
 
+        if (not rich_line.has_length()) {
+            // nothing to cut in a line without extent
+            return rich_line_type{};
+        }
+
         return substring(rich_line, geometry::default_float_type<length_type>::v0, to_distance,
                 rich_line.front(), to_point, true, use_to_point);
     }
@@ -185,7 +199,8 @@ namespace map_matching_2::geometry {
 
             const auto rich_segment = rich_line.rich_referring_segment(from_nearest_segment);
             const auto distance_from = geometry::distance(rich_segment.first(), from);
-            if (distance_from > rich_segment.length() and from_nearest_segment + 1 < rich_line.size() - 1) {
+            if (rich_segment.has_length() and distance_from > rich_segment.length() and
+                from_nearest_segment + 1 < rich_line.size() - 1) {
                 from_nearest_segment++;
             }
         }
@@ -218,7 +233,7 @@ namespace map_matching_2::geometry {
 
             const auto rich_segment = rich_line.rich_referring_segment(to_nearest_segment);
             const auto distance_to = geometry::distance(rich_segment.second(), to);
-            if (distance_to > rich_segment.length() and to_nearest_segment > 0) {
+            if (rich_segment.has_length() and distance_to > rich_segment.length() and to_nearest_segment > 0) {
                 to_nearest_segment--;
             }
         }
@@ -228,7 +243,9 @@ namespace map_matching_2::geometry {
         bool found_to_distance = !calculate_to;
         for (std::size_t i = 0; i < rich_line.size() - 1; ++i) {
             const auto rich_segment = rich_line.rich_referring_segment(i);
-            const auto distance = rich_segment.length();
+            const auto distance = rich_segment.has_length()
+                                      ? rich_segment.length()
+                                      : default_float_type<length_type>::v0;
 
             if (calculate_from) {
                 if (i < from_nearest_segment) {
-- 
2.43.0


From 0607510ca55f61b129b31a454511dc6f773be1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 29/56] fix: cutting outside of a line returns nothing instead
 of the whole line

---
 src/library/include/geometry/algorithm/substring.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index 4db2219..919b4eb 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -50,6 +50,12 @@ namespace map_matching_2::geometry {
             return rich_line;
         }
 
+        if (rich_line.has_length()) {
+            // there is nothing beyond the ends of the line
+            from_distance = std::max(from_distance, geometry::default_float_type<length_type>::v0);
+            to_distance = std::min(to_distance, static_cast<length_type>(rich_line.length()));
+        }
+
         if (rich_line.has_length() and
             from_distance == geometry::default_float_type<length_type>::v0 and to_distance == rich_line.length()) {
             return rich_line;
-- 
2.43.0


From b481cebe27ba0849e087af2f841f6ec02c817fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 30/56] fix: cutting lines on the sphere measures in meter

---
 .../include/geometry/algorithm/substring.hpp     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index 919b4eb..68fe399 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -25,6 +25,18 @@
 
 namespace map_matching_2::geometry {
 
+    template<typename Line, typename Point>
+    void line_interpolate(const Line &line, const typename data<Line>::length_type distance, Point &point) {
+        using coordinate_system_type = typename boost::geometry::coordinate_system<Line>::type;
+        if constexpr (std::same_as<coordinate_system_type, cs_spherical_equatorial>) {
+            // lengths are in meter, see distance and length
+            boost::geometry::line_interpolate(line, distance, point,
+                    boost::geometry::strategy::line_interpolate::spherical<>(6371.0 * 1000));
+        } else {
+            boost::geometry::line_interpolate(line, distance, point);
+        }
+    }
+
     template<is_rich_line RichLine>
     [[nodiscard]] RichLine substring(
             const RichLine &rich_line,
@@ -69,13 +81,13 @@ namespace map_matching_2::geometry {
             if (use_from_point) {
                 from = from_point;
             } else {
-                boost::geometry::line_interpolate(line, from_distance, from);
+                geometry::line_interpolate(line, from_distance, from);
             }
 
             if (use_to_point) {
                 to = to_point;
             } else {
-                boost::geometry::line_interpolate(line, to_distance, to);
+                geometry::line_interpolate(line, to_distance, to);
             }
 
             length_type current_distance = default_float_type<length_type>::v0;
-- 
2.43.0


From 08b54b94ff3e128ff3aa9f0b158d615e749972f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 31/56] fix: cutting a loop at the same point returns the loop

---
 .../include/geometry/algorithm/substring.hpp      | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index 68fe399..b2651e2 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -18,6 +18,8 @@
 
 #include "geometry/rich_type/traits/rich_line.hpp"
 
+#include <algorithm>
+
 #include "geometry/common.hpp"
 
 #include "geometry/algorithm/equals.hpp"
@@ -54,10 +56,6 @@ namespace map_matching_2::geometry {
             return rich_line_type{};
         }
 
-        if (use_from_point and use_to_point and geometry::equals_points(from_point, to_point)) {
-            return rich_line_type{};
-        }
-
         if (rich_line.size() == 1) {
             return rich_line;
         }
@@ -111,6 +109,15 @@ namespace map_matching_2::geometry {
 
             rich_line_type _from{}, _to{};
             rich_line_type _middle = rich_line.sub_rich_line(from_index, to_index);
+
+            if (use_from_point and use_to_point and geometry::equals_points(from, to) and
+                std::all_of(_middle.line().cbegin(), _middle.line().cend(), [&](const auto &point) {
+                    return geometry::equals_points(from, point);
+                })) {
+                // both points are the same and the line does not go anywhere in between
+                return rich_line_type{};
+            }
+
             if (_middle.empty()) {
                 _from = rich_line_type{line_type{from, to}};
             } else {
-- 
2.43.0


From ebf70ababcb3077a33763594d262e5a365a9bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 32/56] fix: reversals at repeated points are kept when
 simplifying

---
 .../include/geometry/algorithm/simplify.hpp   | 59 ++++++++++---------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/library/include/geometry/algorithm/simplify.hpp b/src/library/include/geometry/algorithm/simplify.hpp
index eb20cae..e7835de 100644
--- a/src/library/include/geometry/algorithm/simplify.hpp
+++ b/src/library/include/geometry/algorithm/simplify.hpp
@@ -18,6 +18,7 @@
 
 #include <vector>
 #include <list>
+#include <optional>
 
 #include "geometry/common.hpp"
 
@@ -92,6 +93,7 @@ namespace map_matching_2::geometry {
             bool retain_reversals = true, double tolerance = 1e-3, double reverse_tolerance = 1e-3) {
         using rich_line_type = RichLine;
         using line_type = typename rich_line_traits<rich_line_type>::line_type;
+        using angle_type = typename rich_line_traits<rich_line_type>::angle_type;
 
         std::vector<std::size_t> indices{};
 
@@ -101,17 +103,22 @@ namespace map_matching_2::geometry {
             indices.reserve(rich_line.size());
             std::size_t index = 0;
             if (rich_line.size() > 2) {
-                for (std::size_t i = 0; i + 2 < rich_line.size(); i++) {
+                // segments without extent have no azimuth, so a reversal is searched from the last one with azimuth
+                std::optional<angle_type> last_azimuth{};
+                for (std::size_t i = 0; i + 1 < rich_line.size(); i++) {
                     const auto _segment = rich_line.rich_referring_segment(i);
-                    const auto _next_segment = rich_line.rich_referring_segment(i + 1);
-                    if (_segment.has_azimuth() and _next_segment.has_azimuth()) {
-                        const auto direction = std::fabs(
-                                geometry::direction_deg(_segment.azimuth(), _next_segment.azimuth()));
-                        if (direction > (180.0 - reverse_tolerance)) {
-                            auto _indices = simplify_indices<line_type>(rich_line.line(), index, i + 2, tolerance);
-                            std::move(std::begin(_indices), std::end(_indices), std::back_inserter(indices));
-                            index = i + 1;
+                    if (_segment.has_azimuth()) {
+                        const auto azimuth = _segment.azimuth();
+                        if (last_azimuth.has_value()) {
+                            const auto direction = std::fabs(geometry::direction_deg(*last_azimuth, azimuth));
+                            if (direction > (180.0 - reverse_tolerance)) {
+                                auto _indices = simplify_indices<line_type>(
+                                        rich_line.line(), index, i + 1, tolerance);
+                                std::move(std::begin(_indices), std::end(_indices), std::back_inserter(indices));
+                                index = i;
+                            }
                         }
+                        last_azimuth = azimuth;
                     }
                 }
             }
@@ -172,33 +179,27 @@ namespace map_matching_2::geometry {
             std::pmr::list<RichSegment> &segments,
             bool retain_reversals = true, double tolerance = 1e-3, double reverse_tolerance = 1e-3) {
         using rich_segment_type = RichSegment;
+        using angle_type = typename rich_segment_traits<rich_segment_type>::angle_type;
 
         if (not retain_reversals) {
             _simplify_rich_segments<rich_segment_type>(segments, segments.begin(), segments.end(), tolerance);
         } else {
             auto index = segments.begin();
             if (segments.size() > 1) {
-                auto it = segments.begin();
-                while (std::next(it) != segments.end()) {
-                    auto next_it = std::next(it);
-                    const auto &_segment = *it;
-                    const auto &_next_segment = *next_it;
-                    if (_segment.has_azimuth() and _next_segment.has_azimuth()) {
-                        const auto direction =
-                                std::fabs(geometry::direction_deg(_segment.azimuth(), _next_segment.azimuth()));
-                        if (direction > (180.0 - reverse_tolerance)) {
-                            // reverse movement detected
-                            const auto position = std::distance(segments.begin(), next_it);
-                            const auto size = segments.size();
-                            _simplify_rich_segments<rich_segment_type>(segments, index, next_it, tolerance);
-                            const auto diff = size - segments.size();
-                            it = std::next(segments.begin(), position - diff);
-                            index = it;
-                        } else {
-                            ++it;
+                // segments without extent have no azimuth, so a reversal is searched from the last one with azimuth
+                std::optional<angle_type> last_azimuth{};
+                for (auto it = segments.begin(); it != segments.end(); ++it) {
+                    if ((*it).has_azimuth()) {
+                        const auto azimuth = (*it).azimuth();
+                        if (last_azimuth.has_value()) {
+                            const auto direction = std::fabs(geometry::direction_deg(*last_azimuth, azimuth));
+                            if (direction > (180.0 - reverse_tolerance)) {
+                                // reverse movement detected
+                                _simplify_rich_segments<rich_segment_type>(segments, index, it, tolerance);
+                                index = it;
+                            }
                         }
-                    } else {
-                        ++it;
+                        last_azimuth = azimuth;
                     }
                 }
             }
-- 
2.43.0


From 17bfb69b22b30977c87c844d7f09877c4c429e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 33/56] fix: every repeated reverse segment counts when
 comparing lines

---
 .../include/geometry/algorithm/compare.hpp    | 20 ++-----------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index 3f806ac..3b59cb8 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -433,26 +433,10 @@ namespace map_matching_2::geometry {
             }
 
             // remaining duplicate lines are missed lines because already matched duplicate lines were removed above
-            for (auto reverse_a_it = reverse_a_segments.begin();
-                 reverse_a_it != reverse_a_segments.end(); ++reverse_a_it) {
-                if (std::find_if(error_misses.begin(), error_misses.end(), [&](const auto &error_miss) {
-                    return geometry::equals_points((*reverse_a_it).segment().first, error_miss.segment().first) and
-                            geometry::equals_points((*reverse_a_it).segment().second, error_miss.segment().second);
-                }) == error_misses.end()) {
-                    error_misses.emplace_back(*reverse_a_it);
-                }
-            }
+            error_misses.splice(error_misses.end(), reverse_a_segments);
 
             // remaining reverse lines were added erroneously
-            for (reverse_b_it = reverse_b_segments.begin();
-                 reverse_b_it != reverse_b_segments.end(); ++reverse_b_it) {
-                if (std::find_if(error_adds.begin(), error_adds.end(), [&](const auto &error_add) {
-                    return geometry::equals_points((*reverse_b_it).segment().first, error_add.segment().first) and
-                            geometry::equals_points((*reverse_b_it).segment().second, error_add.segment().second);
-                }) == error_adds.end()) {
-                    error_adds.emplace_back(*reverse_b_it);
-                }
-            }
+            error_adds.splice(error_adds.end(), reverse_b_segments);
 
             // missed lines that we added were correctly found, can happen due to early merging within loops
             error_misses_it = error_misses.begin();
-- 
2.43.0


From 0bb3bd613092ee574a343f232ad7fca6d7fe33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 34/56] fix: adapting points when comparing lines keeps the
 gaps between them

---
 .../include/geometry/algorithm/compare.hpp      | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/library/include/geometry/algorithm/compare.hpp b/src/library/include/geometry/algorithm/compare.hpp
index 3b59cb8..0a1f117 100644
--- a/src/library/include/geometry/algorithm/compare.hpp
+++ b/src/library/include/geometry/algorithm/compare.hpp
@@ -595,7 +595,8 @@ namespace map_matching_2::geometry {
 
             auto adapt_point = [&](auto &segment_it, const bool first) {
                 const segment_type &segment = segment_it->segment();
-                const point_type &point = first ? segment.first : segment.second;
+                // copy of the point as the segment is replaced below
+                const point_type point = first ? segment.first : segment.second;
 
                 const auto buffer = geometry::buffer_box(point, buffer_radius);
                 std::pmr::list<point_type> result_points{&_buffer};
@@ -618,19 +619,21 @@ namespace map_matching_2::geometry {
                     *segment_it = first
                                   ? rich_segment_type{segment_type{*nearest_point, segment.second}}
                                   : rich_segment_type{segment_type{segment.first, *nearest_point}};
-                    if (not(segment_it == segments.begin() and
-                            geometry::equals_points(point, segment_it->segment().first)) and
-                        std::next(segment_it) != segments.end()) {
+                    // a directly following segment moves along, after a gap it starts at its own point
+                    if (not first and std::next(segment_it) != segments.end()) {
                         auto &next_segment = *std::next(segment_it);
-                        if (not geometry::equals_points(next_segment.segment().first, point)) {
-                            next_segment = rich_segment_type{segment_type{point, next_segment.segment().second}};
+                        if (geometry::equals_points(next_segment.segment().first, point)) {
+                            next_segment = rich_segment_type{
+                                    segment_type{*nearest_point, next_segment.segment().second}
+                            };
                         }
                     }
                 }
             };
 
             for (auto segment_it = segments.begin(); segment_it != segments.end(); ++segment_it) {
-                if (segment_it == segments.begin()) {
+                if (segment_it == segments.begin() or not geometry::equals_points(
+                        std::prev(segment_it)->segment().second, segment_it->segment().first)) {
                     adapt_point(segment_it, true);
                 }
                 adapt_point(segment_it, false);
-- 
2.43.0


From de8855f1fb52e5c5a466800e72f92e0a5ade266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 35/56] fix: simplifying segments does not bridge gaps between
 lines

---
 .../include/geometry/algorithm/simplify.hpp   | 44 ++++++++++---------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/library/include/geometry/algorithm/simplify.hpp b/src/library/include/geometry/algorithm/simplify.hpp
index e7835de..6c8c083 100644
--- a/src/library/include/geometry/algorithm/simplify.hpp
+++ b/src/library/include/geometry/algorithm/simplify.hpp
@@ -21,6 +21,7 @@
 #include <optional>
 
 #include "geometry/common.hpp"
+#include "geometry/algorithm/equals.hpp"
 
 #include "geometry/rich_type/concepts.hpp"
 #include "geometry/rich_type/traits/rich_segment.hpp"
@@ -181,31 +182,32 @@ namespace map_matching_2::geometry {
         using rich_segment_type = RichSegment;
         using angle_type = typename rich_segment_traits<rich_segment_type>::angle_type;
 
-        if (not retain_reversals) {
-            _simplify_rich_segments<rich_segment_type>(segments, segments.begin(), segments.end(), tolerance);
-        } else {
-            auto index = segments.begin();
-            if (segments.size() > 1) {
-                // segments without extent have no azimuth, so a reversal is searched from the last one with azimuth
-                std::optional<angle_type> last_azimuth{};
-                for (auto it = segments.begin(); it != segments.end(); ++it) {
-                    if ((*it).has_azimuth()) {
-                        const auto azimuth = (*it).azimuth();
-                        if (last_azimuth.has_value()) {
-                            const auto direction = std::fabs(geometry::direction_deg(*last_azimuth, azimuth));
-                            if (direction > (180.0 - reverse_tolerance)) {
-                                // reverse movement detected
-                                _simplify_rich_segments<rich_segment_type>(segments, index, it, tolerance);
-                                index = it;
-                            }
-                        }
-                        last_azimuth = azimuth;
+        auto index = segments.begin();
+        // segments without extent have no azimuth, so a reversal is searched from the last one with azimuth
+        std::optional<angle_type> last_azimuth{};
+        for (auto it = segments.begin(); it != segments.end(); ++it) {
+            // segments after a gap do not belong to the same line
+            if (it != index and
+                not geometry::equals_points((*std::prev(it)).segment().second, (*it).segment().first)) {
+                _simplify_rich_segments<rich_segment_type>(segments, index, it, tolerance);
+                index = it;
+                last_azimuth.reset();
+            }
+            if (retain_reversals and (*it).has_azimuth()) {
+                const auto azimuth = (*it).azimuth();
+                if (last_azimuth.has_value()) {
+                    const auto direction = std::fabs(geometry::direction_deg(*last_azimuth, azimuth));
+                    if (direction > (180.0 - reverse_tolerance)) {
+                        // reverse movement detected
+                        _simplify_rich_segments<rich_segment_type>(segments, index, it, tolerance);
+                        index = it;
                     }
                 }
+                last_azimuth = azimuth;
             }
-            // remaining
-            _simplify_rich_segments<rich_segment_type>(segments, index, segments.end(), tolerance);
         }
+        // remaining
+        _simplify_rich_segments<rich_segment_type>(segments, index, segments.end(), tolerance);
     }
 
 }
-- 
2.43.0


From aac51f1170032024a842d97682d61e1ded9a800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 36/56] fix: searching adjacent candidates measures the
 distance to the adjacent edge

---
 src/library/include/matching/algorithm/candidate_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index d708a62..f0b59ac 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -168,7 +168,7 @@ namespace map_matching_2::matching {
                     const auto out_edges_v = _network.graph().out_edges_view(vertex);
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
                         const auto &adj_edge = out_edges_v[it];
-                        const auto &adj_edge_line = edge.rich_line.line();
+                        const auto &adj_edge_line = adj_edge.get().rich_line.line();
                         const auto adj_distance = geometry::distance(point, adj_edge_line);
                         if (adj_distance <= edge_distance) {
                             additions.emplace_back(it);
-- 
2.43.0


From 8d64dc5ac07146770be21d8428032253417b479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 37/56] fix: combined search finds the nearest edges when the
 radius grows

---
 src/library/include/matching/algorithm/candidate_search.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index f0b59ac..aea3603 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -97,6 +97,7 @@ namespace map_matching_2::matching {
 
             if (match_settings.candidate_search == settings::CANDIDATE_SEARCH::COMBINED or
                 match_settings.candidate_search == settings::CANDIDATE_SEARCH::CIRCLE) {
+                const auto nearest_result = edge_result;
                 bool found = false;
                 bool adaptive_radius = match_settings.adaptive_radius;
                 double current_radius = match_settings.radius;
@@ -123,6 +124,9 @@ namespace map_matching_2::matching {
                         // create bounding box with at least buffer_distance
                         const auto buffer = geometry::buffer_box(point, current_radius);
                         edge_result = _network.query_segments_unique(boost::geometry::index::intersects(buffer));
+                    } else {
+                        // edges outside of a smaller radius are considered again in a larger one
+                        edge_result = nearest_result;
                     }
 
                     for (auto edge_it = edge_result.begin(); edge_it != edge_result.end();) {
-- 
2.43.0


From 1d66edfb418cd1e685ce12a71fda41b437282714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 38/56] fix: both parts of an edge split at a candidate meet at
 the same place

---
 .../include/matching/algorithm/candidate_search.hpp      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index aea3603..d24ed7e 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -331,8 +331,11 @@ namespace map_matching_2::matching {
                                 _set_from_to_edge();
                             } else {
                                 // projection lies within edge, so we need to cut substrings
-                                from_line = geometry::substring_point_to<_rich_line_type>(
+                                // both parts meet at the same place, also when the edge passes it multiple times
+                                const auto split_distance = geometry::distance_to(
                                         edge.rich_line, projection.second, true);
+                                from_line = geometry::substring_to<_rich_line_type>(
+                                        edge.rich_line, split_distance, projection.second, true);
                                 if (not from_line.has_length() or
                                     from_line.length() == geometry::default_float_type<length_type>::v0) {
                                     // from line is still empty, set to to edge
@@ -341,8 +344,8 @@ namespace map_matching_2::matching {
                                     // from line has same length as edge, replace with original edge again, to_line is still empty
                                     _set_from_to_edge();
                                 } else {
-                                    to_line = geometry::substring_point_from<_rich_line_type>(
-                                            edge.rich_line, projection.second, true);
+                                    to_line = geometry::substring_from<_rich_line_type>(
+                                            edge.rich_line, split_distance, projection.second, true);
                                     if (not to_line.has_length() or
                                         to_line.length() == geometry::default_float_type<length_type>::v0) {
                                         // to line is still empty, set from to edge
-- 
2.43.0


From 6523d0a72954b72a0ece7b2da179018b88be821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 39/56] fix: remembered routes respect the distance allowed in
 the current query

---
 .../include/matching/algorithm/route.hpp      | 83 ++++++++++++++-----
 1 file changed, 61 insertions(+), 22 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index b400e44..405ec74 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -18,6 +18,8 @@
 
 #include <vector>
 #include <list>
+#include <limits>
+#include <memory>
 
 #include <boost/unordered/unordered_flat_set.hpp>
 
@@ -106,12 +108,20 @@ namespace map_matching_2::matching {
 
             route_cache_key_type key{from_target, to_source};
 
+            // how far this query is allowed to go, the cached route might originate from another allowed distance
+            const auto allowed_distance = _allowed_distance(
+                    candidates, from_target, to_source, to, a_star, max_distance_factor);
+
             auto search = _route_cache.find(key);
             bool exists = search != _route_cache.end();
             const route_type *return_route;
 
-            if (exists) {
-                return_route = &(*(search->second));
+            if (exists and not search->second.route->is_invalid()) {
+                const bool allowed = search->second.distance == geometry::default_float_type<length_type>::v0 or
+                        search->second.distance <= allowed_distance;
+                return_route = allowed ? &(*(search->second.route)) : &_no_route;
+            } else if (exists and allowed_distance <= search->second.distance) {
+                return_route = &_no_route;
             } else {
                 bool found = false;
 
@@ -130,31 +140,30 @@ namespace map_matching_2::matching {
                     route_cache_key_type new_key{shortest_path.front(), shortest_path.back()};
 
                     auto new_search = _route_cache.find(new_key);
-                    exists = new_search != _route_cache.end();
+                    exists = new_search != _route_cache.end() and not new_search->second.route->is_invalid();
 
-                    if (exists) {
-                        if (key == new_key) {
-                            return_route = &(*(new_search->second));
-                            found = true;
-                        }
-                    } else {
-                        auto new_route = _network.extract_route(shortest_path);
+                    if (not exists) {
+                        auto new_route = std::make_unique<const route_type>(_network.extract_route(shortest_path));
+                        const length_type distance = new_route->has_length()
+                                                         ? new_route->length()
+                                                         : geometry::default_float_type<length_type>::v0;
 
-                        auto inserted = _route_cache.emplace(
-                                new_key, std::make_unique<const route_type>(std::move(new_route)));
+                        new_search = _route_cache.insert_or_assign(
+                                new_key, cached_route{std::move(new_route), distance}).first;
+                    }
 
-                        if (key == new_key) {
-                            return_route = &(*(inserted.first->second));
-                            found = true;
-                        }
+                    if (key == new_key) {
+                        return_route = &(*(new_search->second.route));
+                        found = true;
                     }
                 }
 
                 if (not found) {
-                    route_type no_route{true};
-                    auto inserted = _route_cache.emplace(
-                            key, std::make_unique<const route_type>(std::move(no_route)));
-                    return_route = &(*(inserted.first->second));
+                    // remember up to which distance there is no route
+                    _route_cache.insert_or_assign(key, cached_route{
+                            std::make_unique<const route_type>(true), static_cast<length_type>(allowed_distance)
+                    });
+                    return_route = &_no_route;
                 }
             }
 
@@ -389,8 +398,14 @@ namespace map_matching_2::matching {
     private:
         using route_cache_key_type = std::pair<vertex_descriptor, vertex_descriptor>;
         using priority_type = graph::priority_type<length_type, vertex_descriptor>;
-        using route_cache_type = boost::unordered::unordered_flat_map<
-            route_cache_key_type, std::unique_ptr<const route_type>>;
+
+        struct cached_route {
+            std::unique_ptr<const route_type> route;
+            // length of the route, or the distance up to which there is none
+            length_type distance;
+        };
+
+        using route_cache_type = boost::unordered::unordered_flat_map<route_cache_key_type, cached_route>;
 
         util::time_helper &_time_helper;
         const network_type &_network;
@@ -401,6 +416,30 @@ namespace map_matching_2::matching {
         mutable graph::priority_queue_type<priority_type> _queue{};
 
         mutable route_cache_type _route_cache{};
+        const route_type _no_route{true};
+
+        [[nodiscard]] distance_type _allowed_distance(
+                const std::vector<candidate_type> &candidates,
+                const vertex_descriptor &vertex_start, const vertex_descriptor &vertex_goal, const std::size_t to,
+                const bool a_star, const double max_distance_factor) const {
+            if (max_distance_factor < 0.0) {
+                return std::numeric_limits<distance_type>::infinity();
+            }
+
+            const auto &node_start = _network.vertex(vertex_start);
+            distance_type max_distance = geometry::default_float_type<distance_type>::v0;
+            if (a_star) {
+                max_distance = geometry::point_distance(node_start.point, _network.vertex(vertex_goal).point);
+            } else {
+                for (const auto &candidate_node : candidates[to].nodes) {
+                    const auto &node_goal = _network.vertex(candidate_node.vertex_desc);
+                    max_distance = std::max(max_distance,
+                            static_cast<distance_type>(geometry::point_distance(node_start.point, node_goal.point)));
+                }
+            }
+
+            return max_distance_factor * max_distance;
+        }
 
     };
 
-- 
2.43.0


From 945d3c845cac85152bb103307555bad3d4e18df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 40/56] fix: a candidate at the front of an edge continues
 along this edge

---
 src/library/include/matching/algorithm/route.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 405ec74..ba9a337 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -193,13 +193,16 @@ namespace map_matching_2::matching {
                     const auto &edge = _network.edge(candidate_from.edge_desc);
                     if (edge.rich_line.has_length() and start->length() + end->length() >= edge.rich_line.length()) {
                         // if both lines overlap (which is only possible when sum of lengths is larger or equal than edge length)
-                        if (candidate_from.from->has_length() and candidate_to.from->has_length() and
-                            candidate_from.from->length() <= candidate_to.from->length()) {
+                        // nothing lies before the start when it is at the front of the edge
+                        const auto from_distance = candidate_from.from->has_length()
+                                                       ? candidate_from.from->length()
+                                                       : geometry::default_float_type<length_type>::v0;
+                        if (candidate_to.from->has_length() and from_distance <= candidate_to.from->length()) {
                             // only continue if substring is possible, else routing is needed
                             // std::cout << edge << "\n" << candidate_from << "\n" << candidate_to << std::endl;
                             return route_type{
                                     geometry::substring<lazy_rich_line_type>(
-                                            edge.rich_line, candidate_from.from->length(), candidate_to.from->length(),
+                                            edge.rich_line, from_distance, candidate_to.from->length(),
                                             candidate_from.projection_point, candidate_to.projection_point, true, true)
                             };
                         }
-- 
2.43.0


From 8dd2cf8a6a98cbc7c153b51d0aa6f175edb0ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 41/56] fix: turns within edges are found when only a node lies
 in between

---
 .../include/matching/algorithm/route.hpp      | 38 +++++++------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index ba9a337..27e781e 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -218,32 +218,22 @@ namespace map_matching_2::matching {
 
                 try {
                     if (within_edge_turns) {
-                        // trim route to allow turns within the edge
+                        // trim route to allow turns within the edge, also when there is only a node in between
                         route_type start_return = start_route.template trim_merge<lazy_rich_line_type>(route);
-                        if (not start_return.is_invalid()) {
-                            // start trim worked
-                            route_type end_return = start_return.template trim_merge<lazy_rich_line_type>(end_route);
-                            if (not end_return.is_invalid()) {
-                                // end trim also worked, return combination
-                                return end_return;
-                            } else {
-                                // end trim did not work, merge
-                                return route_type::template merge<lazy_rich_line_type>(
-                                        {start_return, end_route}, false, true);
-                            }
-                        } else {
-                            // start trim did not work, try end
-                            route_type end_return = route.template trim_merge<lazy_rich_line_type>(end_route);
-                            if (not end_return.is_invalid()) {
-                                // end trim worked, start did not, merge
-                                return route_type::template merge<lazy_rich_line_type>(
-                                        {start_route, end_return}, false, true);
-                            } else {
-                                // end trim also did not work, merge all
-                                return route_type::template merge<lazy_rich_line_type>(
-                                        {start_route, route, end_route}, false, true);
-                            }
+                        if (start_return.is_invalid()) {
+                            // start trim did not work, merge
+                            start_return = route_type::template merge<lazy_rich_line_type>(
+                                    {start_route, route}, false, true);
                         }
+
+                        route_type end_return = start_return.template trim_merge<lazy_rich_line_type>(end_route);
+                        if (end_return.is_invalid()) {
+                            // end trim did not work, merge
+                            end_return = route_type::template merge<lazy_rich_line_type>(
+                                    {start_return, end_route}, false, true);
+                        }
+
+                        return end_return;
                     } else {
                         // only turn at graph nodes, never within edges, so regular merge
                         return route_type::template merge<lazy_rich_line_type>(
-- 
2.43.0


From d65590b46a1b3c3a31d66153c5b947ee71943122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 42/56] fix: filtering duplicates removes exactly the duplicate
 points of a track

---
 src/library/include/environment/environments/hmm.hpp    | 6 +++---
 src/library/include/environment/environments/single.hpp | 4 ++--
 src/library/include/matching/algorithm/detect.hpp       | 3 ++-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/library/include/environment/environments/hmm.hpp b/src/library/include/environment/environments/hmm.hpp
index 0091824..747b560 100644
--- a/src/library/include/environment/environments/hmm.hpp
+++ b/src/library/include/environment/environments/hmm.hpp
@@ -78,8 +78,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
@@ -114,7 +114,7 @@ namespace map_matching_2::environment {
             _transitions.clear();
 
             // observations
-            _observations.reserve(track.rich_line.size());
+            _observations.reserve(_track.rich_line.size());
             for (const auto &candidate : _candidates) {
                 double max_distance = 0.0;
                 for (const auto &candidate_edge : candidate.edges) {
diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index 270eaaa..748aaaa 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -98,8 +98,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
diff --git a/src/library/include/matching/algorithm/detect.hpp b/src/library/include/matching/algorithm/detect.hpp
index 163a0c9..c4fbb14 100644
--- a/src/library/include/matching/algorithm/detect.hpp
+++ b/src/library/include/matching/algorithm/detect.hpp
@@ -67,7 +67,8 @@ namespace map_matching_2::matching {
             }
 
             for (auto &defect_set : defects) {
-                if (not defect_set.empty()) {
+                if (defect_set.size() > 1) {
+                    // there are other defects
                     defect_set.erase(defect::none);
                 }
             }
-- 
2.43.0


From c844e6a1125ec375a8388937f76ebd41755b2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 43/56] fix: a point in an edge is recognized when other edges
 pass through it

---
 src/library/include/geometry/network/network.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index f551cc4..aed988d 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -178,6 +178,16 @@ namespace map_matching_2::geometry::network {
                 const auto &nearest_segment = nearest_segment_pair.first;
                 bool found = geometry::equals_points(nearest_segment.first, point) or
                         geometry::equals_points(nearest_segment.second, point);
+                if (not found) {
+                    // of multiple segments passing through the point, another one might start or end there
+                    for (const auto &segment_pair : query_segments(boost::geometry::index::intersects(point))) {
+                        const auto &segment = segment_pair.first;
+                        if (geometry::equals_points(segment.first, point) or
+                            geometry::equals_points(segment.second, point)) {
+                            return std::pair{true, segment_pair.second};
+                        }
+                    }
+                }
                 const auto edge_pair = nearest_segment_pair.second;
                 return std::pair{found, edge_pair};
             }
-- 
2.43.0


From 38dbed056315addce971579a5d9424b98fd50a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 44/56] fix: the change to a different edge at the same point
 remains in the matched route

---
 src/library/include/matching/algorithm/route.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 27e781e..24af34c 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -259,6 +259,7 @@ namespace map_matching_2::matching {
             std::vector<route_type> routes;
             routes.reserve(not candidates.empty() ? candidates.size() - 1 : 0);
             bool skipped = false;
+            const typename candidate_type::candidate_edge_type *prev_candidate = nullptr;
             for (std::size_t i = 0, j = 1; j < policy.size(); ++i, ++j) {
                 const auto &from_policy_pair = policy[i];
                 const auto &to_policy_pair = policy[j];
@@ -280,7 +281,12 @@ namespace map_matching_2::matching {
                 route_type route = candidate_route(candidates, from, source, to, target,
                         within_edge_turns, a_star, max_distance_factor);
 
-                if (join_merges and not skipped and
+                // the track can continue on a different edge at the same point, then this point must remain
+                const auto &candidate_from = candidates[from].edges[source];
+                const bool same_edge = prev_candidate != nullptr and
+                        prev_candidate->edge_desc == candidate_from.edge_desc;
+
+                if (join_merges and not skipped and same_edge and
                     not routes.empty() and not route.is_invalid() and not route.rich_lines().empty()) {
                     route_type &prev_route = routes.back();
                     if (not prev_route.is_invalid() and not prev_route.empty()) {
@@ -300,6 +306,7 @@ namespace map_matching_2::matching {
 
                 if (not route.is_invalid() and route.has_length()) {
                     skipped = false;
+                    prev_candidate = &candidates[to].edges[target];
                     routes.emplace_back(std::move(route));
                 }
             }
-- 
2.43.0


From db8777ae16546f581357bd29c3b09db8653555ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 45/56] fix: routes are not joined across a gap without route

---
 src/library/include/matching/algorithm/route.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 24af34c..abb0140 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -308,6 +308,9 @@ namespace map_matching_2::matching {
                     skipped = false;
                     prev_candidate = &candidates[to].edges[target];
                     routes.emplace_back(std::move(route));
+                } else if (route.is_invalid()) {
+                    // there is a gap, the next route does not continue the previous route
+                    prev_candidate = nullptr;
                 }
             }
 
-- 
2.43.0


From c74e1e61e99aac6b54cbdb1102967ee8d48c3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 46/56] fix: matcher and comparator finish their tasks before
 they are destroyed

---
 src/library/include/matching/matcher.hpp | 4 ++++
 src/library/src/compare/comparator.cpp   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/library/include/matching/matcher.hpp b/src/library/include/matching/matcher.hpp
index 9fd976a..1b3f169 100644
--- a/src/library/include/matching/matcher.hpp
+++ b/src/library/include/matching/matcher.hpp
@@ -77,6 +77,10 @@ namespace map_matching_2::matching {
         }
 
         ~matcher() override {
+            // finish all queued tasks as long as this object and its exporters still exist
+            this->stop();
+            this->join();
+
             _output_printer.stop();
             _exporter.stop();
             _candidates_exporter.stop();
diff --git a/src/library/src/compare/comparator.cpp b/src/library/src/compare/comparator.cpp
index ae8f077..b324f18 100644
--- a/src/library/src/compare/comparator.cpp
+++ b/src/library/src/compare/comparator.cpp
@@ -30,6 +30,10 @@ namespace map_matching_2::compare {
     }
 
     comparator::~comparator() {
+        // finish all queued tasks as long as this object and its exporters still exist
+        this->stop();
+        this->join();
+
         _output_printer.stop();
         _exporter.stop();
 
-- 
2.43.0


From 5e1b87c6f0658a2fece7edbaee718f08e74d701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 47/56] fix: queued tasks are not lost when stopping right
 after the queue was found empty

---
 src/library/include/util/coordinator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/include/util/coordinator.hpp b/src/library/include/util/coordinator.hpp
index 9301250..dab870f 100644
--- a/src/library/include/util/coordinator.hpp
+++ b/src/library/include/util/coordinator.hpp
@@ -76,7 +76,8 @@ namespace map_matching_2::util {
         virtual void execute(task_type &&task) = 0;
 
         void _start() {
-            while (not _queue.empty() or not _queue.closed()) {
+            // closed needs to be asked first, only then no more tasks can be queued after the queue was found empty
+            while (not _queue.closed() or not _queue.empty()) {
                 task_type task;
                 auto queue_op = _queue.wait_pull_front(task);
                 if (queue_op == boost::queue_op_status::success) {
-- 
2.43.0


From 4bff01aae52c45aa6c11ce7c562bb87efdeeb68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 48/56] fix: points with equal times keep their order when
 importing tracks

---
 src/library/include/io/track/csv_track_importer.hpp | 2 +-
 src/library/include/io/track/gpx_track_importer.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/io/track/csv_track_importer.hpp b/src/library/include/io/track/csv_track_importer.hpp
index 04982d1..601bfed 100644
--- a/src/library/include/io/track/csv_track_importer.hpp
+++ b/src/library/include/io/track/csv_track_importer.hpp
@@ -226,7 +226,7 @@ namespace map_matching_2::io::track {
                     if (_selectors.empty() or _selectors.contains(id)) {
                         auto &measurements = std::any_cast<std::vector<measurement_type_out> &>(
                                 measurement_pair.second);
-                        std::sort(std::begin(measurements), std::end(measurements));
+                        std::stable_sort(std::begin(measurements), std::end(measurements));
                         _forwarder.pass(multi_track_type{
                                 id, geometry::measurements2line<measurement_type_out, line_type_out>(
                                         std::move(measurements))
diff --git a/src/library/include/io/track/gpx_track_importer.hpp b/src/library/include/io/track/gpx_track_importer.hpp
index 27feef4..c82ae8e 100644
--- a/src/library/include/io/track/gpx_track_importer.hpp
+++ b/src/library/include/io/track/gpx_track_importer.hpp
@@ -175,7 +175,7 @@ namespace map_matching_2::io::track {
                 }
             }
 
-            std::sort(std::begin(measurements), std::end(measurements));
+            std::stable_sort(std::begin(measurements), std::end(measurements));
 
             return geometry::measurements2line<measurement_type_out, line_type_out>(measurements);
         };
-- 
2.43.0


From d46a523de9ce4d7376a3397612f784e514a68b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 49/56] fix: edges lists with unknown edges are skipped instead
 of ending the program

---
 src/library/include/io/track/edges_list_importer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/io/track/edges_list_importer.hpp b/src/library/include/io/track/edges_list_importer.hpp
index bc4619f..46c170d 100644
--- a/src/library/include/io/track/edges_list_importer.hpp
+++ b/src/library/include/io/track/edges_list_importer.hpp
@@ -150,8 +150,8 @@ namespace map_matching_2::io::track {
                             }
                             prev_edge_id = edge_id;
 
-                            const auto &edge_descriptors = _edge_map.at(edge_id);
-                            if (edge_descriptors.empty()) {
+                            const auto edge_search = _edge_map.find(edge_id);
+                            if (edge_search == _edge_map.end()) {
                                 std::cerr << std::format(
                                         "file '{}' contains edge with id {} but no such edge exists in the network, skipping ...",
                                         filenames[i], edge_id) << std::endl;
@@ -159,7 +159,7 @@ namespace map_matching_2::io::track {
                                 break;
                             }
 
-                            edge_descriptor_list.emplace_back(edge_descriptors);
+                            edge_descriptor_list.emplace_back(edge_search->second);
                         }
                     }
 
-- 
2.43.0


From 9c5063df5a8ad70fb27789b3eb938c4dafb99df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 50/56] fix: fractions of a second are regarded when ordering
 the points of a track

---
 src/library/src/io/importer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/src/io/importer.cpp b/src/library/src/io/importer.cpp
index 01233fc..c37878a 100644
--- a/src/library/src/io/importer.cpp
+++ b/src/library/src/io/importer.cpp
@@ -108,7 +108,8 @@ namespace map_matching_2::io {
         date::sys_time<std::chrono::milliseconds> time;
         time_str_stream >> date::parse(format, time);
 #endif
-        const auto count = std::chrono::duration_cast<std::chrono::seconds>(time.time_since_epoch()).count();
+        // keep fractions of a second, they are relevant for the order
+        const auto count = time.time_since_epoch().count();
         assert(count >= 0);
         return static_cast<std::uint64_t>(count);
     }
-- 
2.43.0


From c378120ff91a18742706e0a81d3648d71b790e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 51/56] fix: empty segments of a GPX track are left out instead
 of crashing the import

---
 src/library/include/io/track/gpx_track_importer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/include/io/track/gpx_track_importer.hpp b/src/library/include/io/track/gpx_track_importer.hpp
index c82ae8e..00222d0 100644
--- a/src/library/include/io/track/gpx_track_importer.hpp
+++ b/src/library/include/io/track/gpx_track_importer.hpp
@@ -107,7 +107,10 @@ namespace map_matching_2::io::track {
                         multi_line.reserve(trksegs.size());
                         for (auto seg : trksegs) {
                             if (seg != nullptr) {
-                                multi_line.emplace_back(_parse_track_segment<InputCS, OutputCS>(seg));
+                                auto line = _parse_track_segment<InputCS, OutputCS>(seg);
+                                if (not line.empty()) {
+                                    multi_line.emplace_back(std::move(line));
+                                }
                             }
                         }
 
-- 
2.43.0


From 2267caffff0087c6d2b57c8534388b84bf92788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 52/56] fix: ways without nodes are skipped instead of reading
 beyond their node list

---
 src/library/include/io/network/osm_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index a351c97..c9dd42a 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -66,7 +66,7 @@ namespace map_matching_2::io::network {
                     }
                 }
 
-                for (std::size_t i = 0; i < osm_nodes.size() - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < osm_nodes.size(); ++i) {
                     try {
                         const auto index_from = static_cast<std::uint64_t>(osm_nodes[i].ref());
                         const auto index_to = static_cast<std::uint64_t>(osm_nodes[i + 1].ref());
-- 
2.43.0


From bf6c1fc032595a873e1b26b9b7aaa3c3f1f91c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 53/56] fix: ways matching only the oneway reverse filter keep
 only their opposing edge

---
 src/library/include/io/network/osm_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index c9dd42a..c4000f6 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -120,6 +120,7 @@ namespace map_matching_2::io::network {
                     oneway = true;
                 }
                 if (_oneway_reverse(tag)) {
+                    oneway = true;
                     reverse = true;
                 }
             }
-- 
2.43.0


From 921467c0eeef912cff4fc41ba1e9efe4b1f012c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 54/56] fix: export a transformed network from the system it
 was transformed to

---
 src/library/src/geometry/srs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/src/geometry/srs.cpp b/src/library/src/geometry/srs.cpp
index 8a29082..76b8e34 100644
--- a/src/library/src/geometry/srs.cpp
+++ b/src/library/src/geometry/srs.cpp
@@ -130,10 +130,10 @@ namespace map_matching_2::geometry {
     srs_transform compute_next_srs_transform(const srs_transform &_srs_transform, const std::int32_t transform_srs_code,
             const SRS transform_srs_type) {
 
-        if (_srs_transform.transform_srs_type != SRS::CS_INVALID and _srs_transform.srs_code != transform_srs_code and
-            _srs_transform.transform_srs_type != transform_srs_type) {
+        if (_srs_transform.transform_srs_type != SRS::CS_INVALID) {
+            // the current coordinates are in the system that was transformed to
             return srs_transform{
-                    srs{_srs_transform.srs_code, _srs_transform.transform_srs_type},
+                    srs{_srs_transform.transform_srs_code, _srs_transform.transform_srs_type},
                     transform_srs_code, transform_srs_type
             };
         }
-- 
2.43.0


From 5bde50647084e92ec2124cb8997ff2ee889a9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 55/56] fix: do not leave reprojected points uninitialised when
 the input point is of another type

---
 .../include/geometry/algorithm/reproject.hpp  | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index a45608a..b1557a3 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -16,6 +16,8 @@
 #ifndef MAP_MATCHING_2_GEOMETRY_ALGORITHM_REPROJECT_HPP
 #define MAP_MATCHING_2_GEOMETRY_ALGORITHM_REPROJECT_HPP
 
+#include <stdexcept>
+
 #include "types/geometry/reprojector.hpp"
 
 namespace map_matching_2::geometry {
@@ -30,20 +32,17 @@ namespace map_matching_2::geometry {
             using in_point_type = typename point_reprojector_type::in_point_type;
             using out_point_type = typename point_reprojector_type::out_point_type;
 
-            if (reprojector.transform()) {
-                if constexpr (std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>) {
-                    out_point = reprojector(in_point);
+            if constexpr (std::same_as<out_point_type, OutPoint>) {
+                // the input point carries the coordinates of the input system, also when it is of another type,
+                // e.g., OSM locations are always given as geographic points
+                const in_point_type _in_point{boost::geometry::get<0>(in_point), boost::geometry::get<1>(in_point)};
+                if (reprojector.transform()) {
+                    out_point = reprojector(_in_point);
                 } else {
-                    static_assert(not(std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>),
-                            "reprojector not called because types mismatch.");
+                    out_point = out_point_type{boost::geometry::get<0>(_in_point), boost::geometry::get<1>(_in_point)};
                 }
             } else {
-                if constexpr (std::same_as<InPoint, OutPoint>) {
-                    out_point = in_point;
-                } else {
-                    static_assert(not std::same_as<InPoint, OutPoint>,
-                            "no transform reprojector and types mismatch.");
-                }
+                throw std::invalid_argument{"reprojector output and point type mismatch."};
             }
         }, reprojector_variant);
     }
-- 
2.43.0


From 3bb47cef1cf084604b58b8017c627a6ea3210f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 56/56] fix: OpenStreetMap export of isolated nodes and of
 opposite one-way roads

---
 .../include/io/network/osm_exporter.hpp       | 44 ++++++++++++++-----
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index e301e60..9492820 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -16,6 +16,8 @@
 #ifndef MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 #define MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 
+#include <set>
+#include <string>
 #include <utility>
 
 #include <boost/unordered/unordered_flat_set.hpp>
@@ -52,6 +54,17 @@ namespace map_matching_2::io::network {
 
             // index all points
             std::uint64_t index = 0;
+            const auto vertices_v = _graph.vertices_view();
+            for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
+                // vertices without edges need an index, too
+                const vertex_data_type &vertex = vertices_v[it].get();
+                point_type _point;
+                geometry::reproject_point(vertex.point, _point, _reprojector_variant);
+                point_map_key_type point_map_key{boost::geometry::get<0>(_point), boost::geometry::get<1>(_point)};
+                if (not _point_map.contains(point_map_key)) {
+                    _point_map.emplace(point_map_key, index++);
+                }
+            }
             const auto edges_v = _graph.edges_view();
             for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it)) {
                 const edge_data_type &edge = edges_v[it].get();
@@ -69,7 +82,6 @@ namespace map_matching_2::io::network {
 
             // add nodes
             point_set_type points_added;
-            const auto vertices_v = _graph.vertices_view();
             for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
                 const vertex_data_type &vertex = vertices_v[it].get();
                 add_node(buffer, vertex, points_added);
@@ -95,7 +107,8 @@ namespace map_matching_2::io::network {
                     for (auto out_it = out_edges_v.begin();
                          out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
                         const edge_data_type &out_edge = out_edges_v[out_it].get();
-                        if (geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line())) {
+                        if (geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line()) and
+                            way_tags(edge) == way_tags(out_edge)) {
                             edges_reversed.emplace(_graph.edge_index(out_it));
                             is_oneway = false;
                         }
@@ -127,6 +140,18 @@ namespace map_matching_2::io::network {
         point_map_type _point_map{};
         geometry::point_reprojector_variant _reprojector_variant;
 
+        // the tags besides the direction, only edges with the same ones are described by the same way
+        [[nodiscard]] std::set<std::pair<std::string, std::string>> way_tags(const edge_data_type &edge) const {
+            std::set<std::pair<std::string, std::string>> tags;
+            for (const auto &tag : _tag_helper.edge_tags(edge.id)) {
+                const auto pair = _tag_helper.tag(tag);
+                if (pair.first != "oneway") {
+                    tags.emplace(pair.first, pair.second);
+                }
+            }
+            return tags;
+        }
+
         void add_node(osmium::memory::Buffer &buffer, const vertex_data_type &node, point_set_type &points_added) {
             osmium::builder::NodeBuilder node_builder{buffer};
 
@@ -189,22 +214,17 @@ namespace map_matching_2::io::network {
 
             {
                 osmium::builder::TagListBuilder way_tag_builder{way_builder};
-                bool has_oneway = false;
                 const auto &tags = _tag_helper.edge_tags(edge.id);
                 for (const auto &tag : tags) {
                     const auto pair = _tag_helper.tag(tag);
-                    if (pair.first == "oneway") {
-                        if (pair.second == "yes") {
-                            // one way detected, don't add again later
-                            has_oneway = true;
-                        } else if (pair.second == "-1" or pair.second == "reverse") {
-                            // skip reverse tags as they were corrected on import
-                            continue;
-                        }
+                    if (pair.first == "oneway" and (is_oneway or pair.second != "no")) {
+                        // skip direction tags, the direction was corrected on import
+                        // and could have changed by the processing of the network
+                        continue;
                     }
                     way_tag_builder.add_tag(pair.first, pair.second);
                 }
-                if (not has_oneway and is_oneway) {
+                if (is_oneway) {
                     way_tag_builder.add_tag("oneway", "yes");
                 }
             }
-- 
2.43.0

