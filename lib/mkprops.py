#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand; output is committed)."""
import json, os
I = "src/library/include/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": [I + f if not f.startswith(("src/", "tests/")) else f for f in files],
         "mechanism": [{"name": n, "where": (I + w if not w.startswith("src/") else w)} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A mutable graph always equals what its modification history left in it",
  "After any sequence of adding, removing and clearing vertices and edges, reindexing and copying, a graph contains exactly the vertices and edges that the sequence leaves, each with its own data and its original endpoints. Every enumeration and query (all vertices and edges, outgoing and incoming edges, degrees, counts, indices) agrees with that content, for undirected, directed and bidirectional graphs, and an addition that fails for lack of memory changes nothing.",
  ["histories", "configurations"],
  "All sequences of graph modifications (add/remove vertex, add/remove edge, remove all edges between two vertices, clear a vertex, reindex, copy, failed additions) over all three directedness kinds, including parallel edges and self loops.",
  "The existing tests run a handful of fixed sequences on small graphs; lists are linked by hand (free-standing incidence lists per direction) and only particular orders of removal, parallel edges and self loops expose a stale link.",
  ["graph/adjacency_list.hpp", "graph/container_view.hpp", "graph/container_subview.hpp"],
  [("incidence lists maintained by add_edge/remove_edge/remove_vertex/clear_vertex_edges", "graph/adjacency_list.hpp"),
   ("reindex and copy_from rewrite descriptors", "graph/adjacency_list.hpp")],
  ["public adjacency_list API (views, degrees, indices, endpoints)"],
  [("vertices/edges", "linked containers of nodes and their incidence lists", "graph/adjacency_list.hpp")])

p("C02", "The compressed graph is the same graph as the one it was built from",
  "Building the static, compressed form of a graph preserves every vertex and every edge with its data and endpoints and the order of each vertex's outgoing edges, and invents none. Every query on the compressed graph (enumeration, outgoing edges, source and target of an edge, degrees, counts) agrees with the graph it was built from, whatever was added to or removed from that graph before.",
  ["inputs", "histories", "configurations"],
  "All source graphs that a modification history can produce (holes in descriptors, isolated vertices, self loops, parallel edges) and all directedness combinations that are supported for building.",
  "Tests convert two or three literal graphs; offsets are prefix sums, so empty rows at the start, middle and end and removed vertices are what breaks them.",
  ["graph/compressed_sparse_row.hpp", "graph/adjacency_list.hpp"],
  [("from_adjacency_list bakes row and column offsets", "graph/compressed_sparse_row.hpp")],
  ["public compressed_sparse_row API"],
  [("vertex.start / edges", "row offsets and edge array", "graph/compressed_sparse_row.hpp")])

p("C03", "Graph searches visit exactly what is reachable and return shortest paths",
  "For every directed graph (one-way or bidirectional, mutable or compressed) with non-negative edge costs, the shortest-path searches report a goal as found exactly when it is reachable (for the distance-limited search: when its shortest distance is within the limit), and the reported path is a connected sequence of edges of the graph from the start to the goal whose total cost is the minimum. The breadth-first and depth-first traversals visit exactly the vertices reachable from their start, each once, and report consistent predecessors.",
  ["inputs", "configurations"],
  "All directed graphs, cost assignments, start vertices, goal sets and distance limits; both graph representations; searches for one goal, many goals and all vertices.",
  "Tests check one literal graph; early termination, relaxations that improve an already queued vertex, ties, zero-cost edges, unreachable goals and limits between two path lengths depend on the particular graph.",
  ["graph/algorithm/dijkstra_shortest_path.hpp", "graph/algorithm/a_star_shortest_path.hpp", "graph/algorithm/breadth_first_search.hpp",
   "graph/algorithm/depth_first_search.hpp", "graph/algorithm/visitor.hpp", "geometry/network/network.hpp"],
  [("dijkstra/a_star main loops and early goal termination", "graph/algorithm/dijkstra_shortest_path.hpp"),
   ("distance limited multi target visitor", "geometry/network/network.hpp")],
  ["network route queries and the search algorithms with their distance, predecessor and colour maps"])

p("C04", "Simplifying a network never changes its geometry or its routes",
  "Simplifying a network leaves all junctions and dead ends in place and only replaces chains of edges through pass-through nodes by single edges whose geometry is the concatenation of the chain, so the shortest travel distance between any two remaining nodes, in each direction, is unchanged, and no road geometry is lost or invented. Edges with different tags are only combined when tag merging is requested, in which case the combined edge carries all tags of its parts, and one-way roads stay one-way.",
  ["inputs", "configurations"],
  "All directed networks, including two-way roads, one-way chains, cycles, self loops and parallel roads, with all assignments of tags, in-memory and memory-mapped.",
  "The tests simplify a few small literal networks; correctness depends on the order in which nodes are visited and on combinations of incoming and outgoing edges around each node.",
  ["geometry/network/network_import.hpp", "io/helper/graph_helper.hpp", "io/helper/tag_helper.hpp"],
  [("simplify with directional/bidirectional node conditions and edge merging", "geometry/network/network_import.hpp")],
  ["network graph before and after simplification"])

p("C05", "Network clean-up keeps the largest component and drops only true duplicates",
  "Removing unconnected parts keeps exactly one weakly connected component, a largest one, with all of its nodes and edges, independent of the order in which nodes were added. Removing duplicate nodes leaves one node per position and reconnects every edge to it, and removing duplicate edges leaves exactly one of each group of edges with the same road identifier, the same endpoints and the same geometry, so no connection between two positions is lost.",
  ["inputs", "configurations"],
  "All networks (any mixture of one-way structures, isolated nodes, coincident nodes, parallel and self-loop edges) and all node insertion orders.",
  "Tests cover one example of each; the traversal order, one-way structures that are only weakly connected, and duplicates of duplicates are not sampled.",
  ["geometry/network/network_import.hpp", "io/helper/graph_helper.hpp"],
  [("remove_unconnected_components", "geometry/network/network_import.hpp"),
   ("remove_duplicate_nodes / remove_duplicate_edges", "geometry/network/network_import.hpp")],
  ["network graph before and after each clean-up step"])

p("C06", "Imported OSM roads are exactly those the rules select, in the right direction",
  "A way is imported exactly when the query accepts one of its tags and the filter all of them, where a tag is decided by the first rule it matches and by the stated default otherwise, and a way contributes one road piece per pair of consecutive known nodes in each permitted direction. A way with a tag the reverse rules accept may only be travelled against its direction, one with a tag the one-way rules accept only along it, and any other in both; nodes shared by several ways become a single node, and the tags of a way end up on all its road pieces.",
  ["inputs", "configurations"],
  "All rule lists in the supported rule language and all files of nodes and ways with tags, including repeated and missing nodes, ways without nodes, deleted entities and ways sharing nodes, in memory as well as memory-mapped.",
  "No test exercises the OpenStreetMap import or its rule language; behaviour depends on the combination of rule order, defaults and tag order.",
  ["io/network/osm_handler.hpp", "io/network/osm_importer.hpp", "io/network/osm_car_importer.hpp", "io/network/osm_manual_importer.hpp",
   "io/network/osm_pattern.hpp", "io/helper/osm_handler_helper.hpp"],
  [("query/filter/oneway/reverse filters", "io/network/osm_handler.hpp"), ("rule parser and filter construction", "io/network/osm_manual_importer.hpp")],
  ["import graph and tags produced by the OSM handler"])

p("C07", "Stored tags read back unchanged and equal tag sets share one identity",
  "Every tag and tag set put into the tag store reads back exactly as stored, for as long as the store lives and however large it grows, and storing an equal tag again yields the identity given before. Mapping a tag set to a node or edge, copying, cloning and merging such mappings yields exactly the union and order of tags that those operations describe, in memory as well as memory-mapped.",
  ["histories", "configurations"],
  "All histories of storing, mapping, copying, cloning and merging tags, in-memory and memory-mapped with growth of the storage at any operation.",
  "Tests do not touch the tag store; faults appear only when the storage has to grow in the middle of a particular operation.",
  ["io/helper/tag_helper.hpp", "io/memory_mapped/storage/tag_storage.hpp"],
  [("interning of keys, values and tags", "io/helper/tag_helper.hpp"), ("retry after growth", "io/memory_mapped/storage/base_storage.hpp")],
  ["public tag helper API"])

p("C08", "Memory-mapped data survives growth, closing and reopening",
  "Everything written to a memory-mapped graph, tag or index store remains readable and unchanged while the store grows arbitrarily often, after it is shrunk and closed, and after it is reopened by a fresh process, and a store opened read-only is never modified. Opening a store in a mode that requires it to exist or not to exist behaves accordingly, and a store written by an incompatible build is refused instead of read.",
  ["histories", "crash_points", "configurations"],
  "All histories of open (create, open or create, read, copy-on-write), write, grow, flush, close and reopen, with growth forced at every write.",
  "Tests create a store big enough or grow it a few times at one place; growth remaps the file to another address in the middle of an operation, so every write in every history is a different case.",
  ["io/memory_mapped/storage/base_storage.hpp", "io/memory_mapped/storage/graph_storage.hpp", "io/memory_mapped/storage/tag_storage.hpp",
   "io/memory_mapped/storage/index_storage.hpp", "io/helper/graph_helper.hpp", "io/memory_mapped/utils.hpp"],
  [("grow/retry protocol", "io/memory_mapped/storage/base_storage.hpp"), ("build information check on open", "io/memory_mapped/storage/base_storage.hpp")],
  ["graph helper, tag helper and storage API; files on disk"])

p("C09", "Cached line measures always match the points of the line",
  "Whatever sequence of constructing, copying, assigning, extending, cutting, erasing and merging produced a line, its length, segment lengths, azimuths and turning angles, whole and per segment, are those of its current points, whether they were computed eagerly or on first use. Splitting and merging neither lose nor duplicate points.",
  ["histories", "inputs", "configurations"],
  "All histories of line operations interleaved with measurements, over lazily and eagerly measured lines and multi-lines.",
  "Tests sample a few literal lines per operation and rarely query a cached value after a modification; a stale cache needs a measurement, a modification and a second measurement in one history.",
  ["geometry/rich_type/rich_line.hpp", "geometry/rich_type/rich_line_data.hpp", "geometry/rich_type/lazy_rich_line.hpp", "geometry/rich_type/eager_rich_line.hpp",
   "geometry/rich_type/multi_rich_line.hpp", "geometry/rich_type/multi_rich_line_data.hpp", "geometry/rich_type/rich_segment.hpp"],
  [("cache arrays adjusted by sub_data/erase_data/merge", "geometry/rich_type/rich_line_data.hpp")],
  ["public line API"],
  [("lengths/azimuths/directions", "cached measures of a line", "geometry/rich_type/rich_line_data.hpp")])

p("C10", "Combining and cutting routes keeps them connected and of the right length",
  "Merging routes yields the concatenation of the geometries of its parts in order, where a gap between consecutive parts is kept, bridged by a straight segment or refused, as requested, and the result has the length of its parts. Cutting a route at positions yields exactly the piece between them, trimming removes exactly the stretch that one route ends with and the next goes back over, and all results stay valid when the routes they were made of are gone. The measures of a route (length, azimuth, turning angles, connectedness) are always those of its present geometry, and impossible routes never turn into a possible one by merging or trimming.",
  ["inputs", "histories"],
  "All sequences of merging, trimming and cutting routes built from network edges and parts of edges, including empty routes, single edges, overlaps and U-turns.",
  "Tests use literal routes; the case analysis over first/last partial edges, overlap lengths and empty parts is far larger than the sample.",
  ["geometry/network/route/route.hpp", "geometry/network/route/route_data.hpp", "geometry/network/route/lazy_route.hpp", "geometry/network/route/eager_route.hpp"],
  [("merge, sub_route, trim_merge, join, find_return_line", "geometry/network/route/route.hpp")],
  ["public route API"])

p("C11", "Simplifying or cutting a line keeps its shape within the stated bounds",
  "Line simplification keeps the first and last point, returns the remaining points in order, drops a point only if it lies within the tolerance of the simplified line (a stretch lying within the tolerance of its straight connection is reduced to its ends), and keeps the turning points of reversals when asked to. Cutting a line between two distances returns exactly the part between them, with the original points strictly between the two positions in between, for any distances inside or outside the line.",
  ["inputs", "configurations"],
  "All lines (including repeated points, reversals, loops), tolerances, reversal settings and all pairs of cut distances.",
  "Tests use a few literal lines; recursion of the simplification and cut positions exactly on, just before or after a vertex are a case analysis over all inputs.",
  ["geometry/algorithm/simplify.hpp", "geometry/algorithm/substring.hpp", "geometry/algorithm/distance.hpp", "geometry/rich_type/rich_line.hpp"],
  [("Douglas-Peucker with reversal retention", "geometry/algorithm/simplify.hpp"), ("substring", "geometry/algorithm/substring.hpp")],
  ["simplify and substring functions on lines and tracks"])

p("C12", "Comparing two matches accounts for every metre exactly once",
  "Comparing a ground truth with a match divides the ground truth without remainder or overlap into correctly matched and missed parts, and the match into correctly matched and additional parts, and correct parts are exactly stretches that both share in the same direction. The correct fraction and error fraction follow from those lengths, equal inputs give 1 and 0, and missing inputs are reported as completely wrong instead of failing.",
  ["inputs", "configurations"],
  "All pairs of routes (with detours, skipped stretches, reversals, gaps, several parts) and comparison settings.",
  "Tests compare a few literal pairs; alignment of the two lines is a search whose outcome depends on every overlap, gap and repeated stretch.",
  ["geometry/algorithm/compare.hpp", "geometry/algorithm/compare/comparison.hpp", "compare/comparator.hpp"],
  [("segment walk over simplified and adapted lines", "geometry/algorithm/compare.hpp")],
  ["line comparator results"])

p("C13", "The computed matching policy is the optimal one for the given costs",
  "Given the transition rewards or probabilities of the candidates, the sequence chosen by the hidden Markov model search is one of maximal total score, and the sequences chosen by value iteration and policy iteration are ones of maximal discounted return. The choice contains at most one candidate per observation, in order, and impossible transitions are never chosen when a possible alternative exists.",
  ["inputs", "configurations"],
  "All candidate sets, rewards, dead ends and discount settings.",
  "Tests cover matching of a few literal tracks end to end (and are not built here); optimality is a statement over all alternative sequences.",
  ["learning/algorithms/viterbi.hpp", "learning/algorithms/value_iteration.hpp", "learning/algorithms/policy_iteration.hpp", "learning/algorithms/q_learning.hpp",
   "environment/environments/hmm.hpp", "environment/environments/single.hpp"],
  [("dynamic programming sweeps and back tracking", "learning/algorithms/viterbi.hpp"), ("Bellman updates", "learning/algorithms/value_iteration.hpp")],
  ["returned policy"])

p("C14", "Candidate search offers exactly the roads the settings describe",
  "For each position of a track the radius search offers every road within the radius and none beyond, where the radius starts as configured (with the adaptive option no larger than the distances to the neighbouring positions, within its limits) and is doubled up to its upper limit only while it holds no road; the nearest search offers the roads with the requested number of nearest road segments, the combined search those of them within the radius, and the next search additionally the adjacent roads that are no further away and the opposite directions. Every candidate has the closest point of its road, the distance to it and the two parts of the road split there, and candidates are ordered by distance. Positions adopt exactly the candidates of others that the adoption settings describe, unchanged but for their distance, and a position has a candidate whenever a road lies within the limits.",
  ["inputs", "configurations"],
  "All networks, tracks and candidate search settings (number, radius, growth, adoption).",
  "The test drivers for matching are not built here and use two or three literal networks; ties, roads touching the radius and several adopted candidates depend on the geometry.",
  ["matching/algorithm/candidate_search.hpp", "matching/candidate/candidate_edge.hpp", "geometry/network/network.hpp"],
  [("spatial index queries and adoption", "matching/algorithm/candidate_search.hpp")],
  ["candidate sets"])

p("C15", "Every queued task is processed exactly once, whatever the scheduling",
  "With any number of worker threads, every task put into the queue before it is stopped is executed exactly once and its result is delivered, stopping waits for all of them, and nothing is executed afterwards. Producers never lose or duplicate tasks when the queue is full, at most a bounded number of tasks is waiting, a single worker keeps their order, and the results of matching and comparing do not depend on the number of threads.",
  ["schedules", "configurations"],
  "All interleavings of one producer, any number of workers and the stop request, and all queue bounds.",
  "No test exercises concurrency; the stock tests are single-threaded and a lost wake-up or early stop needs a particular interleaving.",
  ["util/coordinator.hpp", "matching/matcher.hpp", "matching/matcher/matcher_forwarder.hpp", "src/library/src/compare/comparator.cpp", "io/results/csv_results_exporter.hpp"],
  [("bounded queue, semaphore and joining", "util/coordinator.hpp")],
  ["coordinator API with a counting task"])

p("C16", "Imported tracks contain exactly the input's points, grouped and in time order",
  "Importing tracks from delimited text yields one track per identifier (within the configured selection), containing exactly the points of the rows with this identifier, ordered by time when times are given and in input order otherwise, including rows with equal times. Coordinates and times are those written in the input, independent of row interleaving, column position and delimiter. Rows that hold whole lines are tracks of their own; tracks read from standard input, from GPX files (one line per non-empty segment) and from lists of edge identifiers (the edges' geometries chained where they meet) equally contain exactly what is written there.",
  ["inputs", "configurations"],
  "All row sequences, column layouts, selectors, delimiters and time formats.",
  "No test exercises the importers; grouping and ordering depend on how rows of several tracks are interleaved.",
  ["io/track/csv_track_importer.hpp", "io/track/input_importer.hpp", "io/track/gpx_track_importer.hpp", "io/track/edges_list_importer.hpp", "io/importer.hpp", "src/library/src/io/importer.cpp", "geometry/track/measurement.hpp", "geometry/track/track.hpp"],
  [("grouping map, selector and sort", "io/track/csv_track_importer.hpp")],
  ["tracks produced by the importers"])

p("C17", "A prepared network read back from disk is the network that was written",
  "Writing a network, with its graph, tags and spatial index, to disk and reading it back yields the same nodes, edges, geometries, tags and identifiers, and the same answers to every query. A spatial index query returns exactly the items a scan over all items would return.",
  ["inputs", "configurations"],
  "All networks, including empty, node-only and multi-tag ones; dump and memory-mapped formats; point- and segment-based indices and all query boxes.",
  "Tests round-trip one literal graph of each kind; completeness of an index is a statement over all query boxes.",
  ["io/serialization/serializer.hpp", "io/serialization/deserializer.hpp", "io/helper/index_helper.hpp", "io/helper/index_build_helper.hpp", "geometry/network/node.hpp", "geometry/network/edge.hpp"],
  [("boost serialization of graph, tags and index", "io/serialization/serializer.hpp")],
  ["public graph/tag/index API after reload"])

p("C18", "A matched route is a real route through the network",
  "The result of matching a track is a sequence of candidates whose connecting routes start and end at their projected positions, run along existing roads in permitted direction only, and have the length of a shortest permitted connection; where there is no connection a gap remains, and joining the routes adds and leaves out nothing. Remembering computed routes never changes an answer: any order of route queries gives the same routes as computing each from scratch.",
  ["inputs", "histories", "configurations"],
  "All networks, pairs of candidates and histories of route queries with differing limits.",
  "Matching tests are not built here and check a few literal tracks; the effect of a remembered route depends on the order of queries.",
  ["matching/algorithm/route.hpp", "geometry/network/network.hpp", "matching/matcher.hpp", "geometry/network/route/route.hpp"],
  [("route cache and candidate route assembly", "matching/algorithm/route.hpp")],
  ["candidate routes"])

p("C19", "A prepared network and its exports describe the roads of the input",
  "Preparing a network from OpenStreetMap files, with any reference systems, processing options and memory settings, carries every position into the requested reference system and applies exactly the requested processing. The exported CSV files hold the prepared network, the exported OpenStreetMap file describes, in WGS 84, the same nodes, the same roads in the same permitted directions and the same tags; reading it again gives these roads again. Temporary files are gone afterwards.",
  ["inputs", "configurations"],
  "All OpenStreetMap inputs and combinations of options of the program.",
  "No test runs the whole program; single parts can be right while the options, the systems or the export between them go wrong.",
  ["src/app/include/app/prepare.hpp", "io/network/osm_exporter.hpp", "geometry/srs.hpp", "geometry/algorithm/reproject.hpp", "io/csv_exporter.hpp"],
  [("preparation and export", "io/network/osm_exporter.hpp")],
  ["exported CSV and OSM files", "files left in the output folder"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
if __name__ == "__main__":
    import sys
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for x in P: jsonschema.validate(x, s)
        print(len(P), "valid")
    except ImportError:
        print(len(P))
