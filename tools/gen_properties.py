#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids, titles and statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Shortest-path queries are sound, complete and optimal",
 "For every graph with positive metrics, every non-negative weighting of its metrics and every pair of nodes, a shortest-path query returns a path exactly if the destination is reachable from the source. The returned path is a contiguous chain of the graph's edges from source to destination (without edges exactly if both are the same node), its per-metric costs are the sums of its edges' metrics, and no other path has lower weighted costs. A weighting with a negative entry yields no path.",
 ["inputs", "configurations"], "all graphs (parallel edges, self-loops, unreachable parts, sinks, ties), all weightings, all node pairs",
 "The routing tests run all pairs on four fixed maps with one or two weightings; those maps have no graph with two nodes, no zero weights and hardly any ties, so most stopping- and meeting-conditions of the bidirectional search are never distinguished.",
 ["src/routing/dijkstra.rs", "src/routing/paths.rs", "src/network/graph/mod.rs"],
 [("bidirectional search with meeting-node and stopping rule", "src/routing/dijkstra.rs:compute_best_path"), ("cost summation", "src/routing/paths.rs:calc_costs")],
 ["Dijkstra::compute_best_path", "Path::{src_idx,dst_idx,edges,costs}"])
prop("C02", "Hierarchical (CH) queries give the plain optimum",
 "For every graph that carries node levels and shortcuts forming a valid contraction hierarchy for the queried weighting, the hierarchical query finds a path exactly if the plain query does, and both have the same weighted costs. After replacing shortcuts recursively by the edges they stand for, the path consists of original edges only, is contiguous, and has the same per-metric costs.",
 ["inputs", "configurations"], "all graphs with all contraction orders and all weightings for which the hierarchy is valid",
 "Tests use one precomputed hierarchy of a fixed map per file; level ties, zero-level graphs, nested shortcuts and parallel shortcuts of other contraction orders are never built.",
 ["src/routing/dijkstra.rs", "src/routing/paths.rs", "src/network/graph/building.rs", "src/network/graph/mod.rs"],
 [("upward-only relaxation relying on level-sorted edges", "src/routing/dijkstra.rs:compute_best_path"), ("edge order by destination level", "src/network/graph/building.rs:finalize"), ("flattening", "src/routing/paths.rs:try_flatten")],
 ["Dijkstra::compute_best_path with CHDijkstra", "Path::flatten"])
prop("C03", "Routers are reusable: a query's answer is independent of earlier queries",
 "A router object may be used for any sequence of queries over any graphs (smaller, larger, plain or hierarchical), weightings and algorithms, and each answer is as good as that of a fresh router. The same holds for an exploration object and the router it borrows.",
 ["histories"], "all sequences of queries mixing graphs of different size, algorithms, weightings, found and not-found answers",
 "Tests reuse a router on one graph with one weighting; stale per-query state only shows up for particular predecessors (other graph size, query that stops early, unreachable target).",
 ["src/routing/dijkstra.rs", "src/routing/explorating.rs"],
 [("per-query reset of touched entries", "src/routing/dijkstra.rs:init_query"), ("cleared exploration state", "src/routing/explorating.rs:fully_explorate")],
 ["Dijkstra::compute_best_path", "ConvexHullExplorator::fully_explorate"],
 state=[("costs/predecessors/visited", "search state kept between queries", "src/routing/dijkstra.rs")])
prop("C04", "The built graph is a faithful image of the parsed map",
 "The graph contains exactly the nodes that are endpoint of some given edge, with their ids, coordinates and levels, and exactly the given edges with their endpoints, ids and metrics, where edges agreeing in endpoints and metrics (and id, if ids are given) appear once. Forward and backward views describe the same edges, every node lists exactly its leaving respectively entering edges, and the content does not depend on the order of the input lines.",
 ["inputs"], "all maps: any node and edge order, isolated nodes, parallel edges, duplicates, self-loops, nodes without leaving or entering edges",
 "Tests compare a handful of nodes and edges of fixed maps; permutations inside the in-place sorting, offset arrays of sinks/sources and removal of duplicates depend on the exact order and shape of the input.",
 ["src/network/graph/building.rs", "src/network/graph/mod.rs", "src/network/graph/indexing.rs"],
 [("sorting, deduplication and in-place reordering", "src/network/graph/building.rs:finalize"), ("offset arrays", "src/network/graph/building.rs:finalize"), ("edge accessors", "src/network/graph/mod.rs")],
 ["Graph::{nodes,fwd_edges,bwd_edges,metrics}", "EdgeAccessor::{starting_from,between,dst_idx,...}"])
prop("C05", "Shortcuts keep standing for the same edges",
 "After building a graph from a map with shortcuts, each shortcut refers to the same two edges (identified by endpoints and metrics) as in the input, no matter how edges are ordered or which duplicates are removed. Replacing shortcuts recursively yields the contiguous chain of original edges between the shortcut's endpoints, and shortcuts referring to each other in a cycle are reported as an error instead of looping.",
 ["inputs"], "all maps with (nested, parallel, duplicated) shortcuts in all edge orders, and all cyclic reference patterns",
 "The bundled hierarchies are written by one tool in one order and contain no duplicates between shortcut parts and no cycles.",
 ["src/network/graph/building.rs", "src/routing/paths.rs", "src/network/graph/mod.rs"],
 [("index remapping on sort and on removal of duplicates", "src/network/graph/building.rs:finalize"), ("recursive replacement with cycle check", "src/routing/paths.rs:try_flatten")],
 ["EdgeAccessor::{is_shortcut,sc_edges}", "Path::{flatten,try_flatten}"])
prop("C06", "Ids and indices are inverse, inconsistent maps are rejected",
 "Looking up a node or edge by its id finds exactly the element with this id and fails for ids not in the graph; asking an element for its id gives the id of the input. A map is rejected with an error if an edge refers to a node without coordinates, if an edge-id occurs twice for different edges, or if a metric is negative; metrics of zero are replaced by a tiny positive value.",
 ["inputs"], "all id assignments (negative, sparse, unsorted ids), all lookups of present and absent ids, all inconsistent maps",
 "Tests look up the ids of small dense fixed maps and never feed inconsistent maps.",
 ["src/network/graph/building.rs", "src/network/graph/mod.rs", "src/network/graph/indexing.rs"],
 [("binary search over sorted ids", "src/network/graph/mod.rs:idx_from"), ("edge-id map", "src/network/graph/mod.rs:try_idx_from"), ("checks", "src/network/graph/building.rs")],
 ["NodeAccessor::{idx_from,id}", "EdgeAccessor::{try_idx_from,id}", "Parser::parse_and_finalize result"])
prop("C07", "Metrics and generated columns mean what the config says",
 "Each parsed metric column ends up under its configured id with its configured unit, and generated metrics have the defined values: constants, great-circle length between the endpoints, copies, unit conversions of the same physical value, length/speed/duration quotients, and values merged from a side file by edge-id. Generation happens in config order, generated edge-ids number the edges, and ignored columns have no influence.",
 ["inputs", "configurations"], "all column orders, ignored columns, metric counts up to the compiled limit, generation sequences and unit pairs",
 "Tests use the shipped configs only, i.e. three generation sequences and a few unit pairs on one map each.",
 ["src/configs/parsing/edges/mod.rs", "src/configs/parsing/edges/metrics.rs", "src/configs/parsing/generating/edges/mod.rs", "src/configs/parsing/generating/edges/metrics.rs", "src/network/graph/building.rs", "src/io/parsing/network/graph/fmi.rs", "src/io/parsing/network/edges.rs"],
 [("metric-idx assignment by config order", "src/configs/parsing/edges/mod.rs"), ("generation", "src/network/graph/building.rs"), ("unit conversion", "src/configs/parsing/edges/metrics.rs")],
 ["Graph::metrics", "Graph::cfg"])
prop("C08", "Normalizing scales each metric by its mean and is undone on export",
 "With normalization switched on, each metric's values are the given ones divided by their arithmetic mean over all edges, so each metric has mean one and ratios between edges are kept, and the means are remembered. Exporting with denormalization multiplies by exactly these means, so the given values come back; without it, the normalized values are written; without normalization nothing is scaled.",
 ["inputs", "configurations"], "all metric values, metric counts, duplicated edges and all combinations of normalize/denormalize flags",
 "One test checks one map with one metric order; duplicates, several metrics and the flag combinations are not covered.",
 ["src/network/graph/building.rs", "src/network/graph/mod.rs", "src/io/writing/network/graph/fmi.rs", "src/io/writing/network/mod.rs"],
 [("mean computation", "src/network/graph/building.rs:finalize"), ("denormalizing on write", "src/io/writing/network/mod.rs")],
 ["Graph::metrics", "written files"])
prop("C09", "Exported maps describe the graph and can be read back",
 "An exported map file lists, in the configured columns, exactly the graph's nodes and edges with their ids, coordinates, levels and metrics, with correct counts in its header, shortcuts (and their references) being contained exactly if asked for and unknown columns being refused. Parsing the exported file with a matching config yields an equal graph.",
 ["inputs", "configurations"], "all graphs, all column selections and orders, with and without shortcuts, ids and levels",
 "Tests export three maps with one config each and compare them with a file on disk.",
 ["src/io/writing/network/graph/fmi.rs", "src/io/writing/network/mod.rs", "src/io/parsing/network/graph/fmi.rs", "src/configs/writing/network/graph/mod.rs"],
 [("writer", "src/io/writing/network/graph/fmi.rs"), ("column emission", "src/io/writing/network/mod.rs"), ("parser", "src/io/parsing/network/graph/fmi.rs")],
 ["io::network::graph::Writer::write", "written file", "Parser::parse_and_finalize"])
prop("C10", "Exported edge tables list every edge with the asked values",
 "An exported edge table has a header with the configured column names and one row per edge in graph order (shortcuts only if asked for), whose cells are the edge's id, the source's and destination's own ids, positions and coordinates, and metrics, in configured column order. Reading such a table back by edge-id restores exactly the exported values, and a column the graph does not have is refused.",
 ["inputs", "configurations"], "all graphs, all column selections and orders, with and without header, all merge-back configs",
 "Only one table of one map is compared with a file on disk.",
 ["src/io/writing/network/edges.rs", "src/io/writing/network/mod.rs", "src/configs/writing/network/edges.rs", "src/io/parsing/network/edges.rs", "src/network/graph/building.rs"],
 [("column emission", "src/io/writing/network/mod.rs:write_edges_to_file"), ("merging", "src/network/graph/building.rs")],
 ["io::network::edges::Writer::write", "written file"])
prop("C11", "Exported route-pairs are valid, distinct, within budget and reproducible",
 "Exported route-pairs connect distinct nodes of the graph by an existing path, contain no pair twice, are sorted, never exceed the asked number, and are all such pairs if the asked number allows to try all; the same seed gives the same file. Parsing the file returns exactly the written pairs with their counts, and such a file is refused if a line does not have exactly source, destination and count or if it has fewer lines than the count in its header says.",
 ["inputs", "configurations"], "all graphs, weightings, seeds and limits (zero, below, equal and above the number of node pairs)",
 "Tests write route-pairs of one map and check the file only by re-reading one prepared file.",
 ["src/io/writing/routing/random_or_all.rs", "src/io/parsing/routing/routes.rs", "src/io/parsing/routing/mod.rs", "src/configs/writing/routing.rs"],
 [("enumeration or sampling with reachability check", "src/io/writing/routing/random_or_all.rs"), ("line parser", "src/io/parsing/routing/routes.rs")],
 ["io::routing::Writer::write", "io::routing::Parser::parse"])
prop("C12", "Exports never overwrite files and unknown formats are refused",
 "Whatever is exported (map, edge table, route-pairs, vehicle routes, workloads), an already existing file is left untouched and the export reports an error, an export that reports success has written its complete content, and no other file is created or changed. Exporting a map, edge table or route-pairs to, or reading a map or route-pairs from, a file whose extension is not a supported one is refused without creating anything, and supported extensions are recognized in upper and lower case.",
 ["histories", "inputs"], "all exporters, all sequences of exports to new and existing files, all file names",
 "No test exports onto an existing file or uses an unknown extension with a writer.",
 ["src/io/mod.rs", "src/io/writing/network/graph/fmi.rs", "src/io/writing/network/edges.rs", "src/io/writing/routing/random_or_all.rs", "src/io/writing/smarts.rs", "src/io/writing/evaluating_balance.rs", "src/bin/osmgraphing/mod.rs"],
 [("exclusive creation", "src/io/writing"), ("extension lookup", "src/io/mod.rs")],
 ["writers' results", "bytes of the file before and after"])
prop("C13", "Malformed input is answered with an error, never with a crash or garbage",
 "Reading a map, route-pairs or edge-table file with missing, non-numeric or negative fields, fewer lines than announced, unknown ids, dangling shortcut-references or a missing file, and reading a config with missing or contradictory entries, returns an error. It does not crash, hang or silently yield a graph with wrong content.",
 ["inputs", "fault_sequences"], "all single and combined corruptions of well-formed inputs and configs",
 "Tests contain a few expected failures of configs and no malformed maps.",
 ["src/io/parsing/network/graph/fmi.rs", "src/io/parsing/network/graph/mod.rs", "src/io/parsing/routing/routes.rs", "src/network/graph/building.rs", "src/configs/parsing/mod.rs", "src/configs/parsing/edges/mod.rs", "src/configs/routing.rs"],
 [("field parsing with error-mapping", "src/io/parsing/network/graph/fmi.rs"), ("config checks", "src/io/parsing/network/graph/mod.rs:check_config")],
 ["Result of parse", "panics"])
prop("C14", "OSM import keeps exactly the ways a vehicle may use, in legal direction",
 "Importing an OSM file yields, for each road the configured vehicle may use, one edge per consecutive node pair in each permitted direction (respecting oneway and reversed oneway), and no edge for other roads. Node ids and coordinates are those of the file, and speed and lane metrics follow the maxspeed-tag and the road-class defaults.",
 ["inputs", "configurations"], "all tag combinations, all road classes, vehicles, strictness, way shapes",
 "Tests import one real map and count nodes and edges; single tag combinations are never looked at.",
 ["src/io/parsing/network/graph/pbf.rs", "src/network/mod.rs", "src/defaults.rs", "src/configs/parsing/vehicles.rs"],
 [("way filter and direction", "src/io/parsing/network/graph/pbf.rs"), ("road-class tables", "src/defaults.rs")],
 ["Parser::parse_and_finalize on .osm.pbf"])
prop("C15", "Exploration returns tolerated, distinct, weighting-optimal alternatives",
 "Exploring alternatives between two nodes returns distinct valid paths between them, each being optimal for some non-negative weighting of the considered metrics and staying within the tolerated multiple of the best possible costs for each metric; if the destination is unreachable, nothing is returned. With unlimited tolerances, the result contains an optimal path for each considered metric alone and for each equally weighted combination of them; with two considered metrics, as soon as it contains three alternatives whose costs are not on a line, it contains every alternative that is the only optimum of some weighting.",
 ["inputs", "configurations"], "all graphs, considered metrics, tolerances and node pairs, on plain and hierarchical graphs",
 "The exploration tests need a library that cannot be linked here; upstream they run on three fixed maps with infinite tolerances.",
 ["src/routing/explorating.rs", "src/helpers/algebra.rs", "src/helpers/mod.rs"],
 [("initial weightings", "src/routing/explorating.rs:explore_initial_paths"), ("hull refinement", "src/routing/explorating.rs:fully_explorate"), ("tolerance filter", "src/routing/explorating.rs:update")],
 ["ConvexHullExplorator::fully_explorate"])
prop("C16", "Multi-threaded route counting is exact under every schedule",
 "Working off a list of route-pairs with any number of worker threads and any thread schedule terminates, stops all workers, and counts for each original edge exactly how often it lies on the chosen paths, each route-pair contributing as many chosen paths as its count says (none if unreachable). Collected paths are exactly those counted; if a worker fails, the failure is reported instead of returning partial counts.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of outcomes and work packages, all worker counts, route lists (empty, shorter or longer than a package) and worker failures",
 "No test runs the balancer at all (it needs the feature that cannot be linked).",
 ["src/bin/osmgraphing/balancing/multithreading.rs"],
 [("work packages per finished outcome", "src/bin/osmgraphing/balancing/multithreading.rs:work_off"), ("worker loop", "src/bin/osmgraphing/balancing/multithreading.rs:Worker::spawn")],
 ["Master::work_off"], hook="schedule-controlling channel behind cfg(verif_hooks)",
 state=[("route_pairs left / work_size / worker sockets", "progress of the master", "src/bin/osmgraphing/balancing/multithreading.rs")])
prop("C17", "The balanced metric follows the configured update rule",
 "After an iteration, the balanced metric of each edge is the configured combination (explicit step or running average) of its old value and the mean-normalized workload of this edge, bounded below by the configured minimum before all of them are scaled to have mean one over all edges; all other metrics, ids and the graph's structure stay unchanged. Workloads that are zero everywhere are rejected.",
 ["inputs", "configurations"], "all workloads, old metrics, iteration numbers, update rules, corrections and minima",
 "No test covers balancing.",
 ["src/defaults.rs", "src/configs/balancing.rs", "src/network/graph/mod.rs"],
 [("metric update", "src/defaults.rs:balancing::update_new_metric")],
 ["Graph::metrics after update"])
prop("C18", "Routing configs give each metric its own weight and tolerance",
 "For every routing config, each metric of the graph gets the weight given for its id (one if listed without weight, zero if not listed) and its given tolerance (unlimited if none is given), independent of the order of entries; the chosen algorithm is the configured one. Unknown metric ids or algorithms are rejected.",
 ["configurations"], "all sets and orders of entries, all number notations, all algorithms, any metric count",
 "Tests read four routing configs.",
 ["src/configs/routing.rs", "src/configs/parsing/edges/metrics.rs", "src/defaults.rs"],
 [("alphas and tolerated scales aligned with metric order", "src/configs/routing.rs")],
 ["routing::Config fields", "paths chosen"])
prop("C19", "Exported vehicle routes and workloads equal the computed ones",
 "The vehicle-routes export contains one vehicle per given path, in order, listing exactly the ids of the path's nodes from source to destination (nothing for a path without edges). The workload export contains one row per edge in graph order (shortcuts only if asked for), pairing this edge's id with its own workload, and the edge table written next to it lists the same edges.",
 ["inputs"], "all graphs, paths (empty, one edge, through shortcuts replaced before) and workloads",
 "No test covers these exporters.",
 ["src/io/writing/smarts.rs", "src/io/writing/evaluating_balance.rs", "src/io/writing/network/mod.rs"],
 [("xml writer", "src/io/writing/smarts.rs"), ("external values writer", "src/io/writing/network/mod.rs:write_external_values")],
 ["written files"])
prop("C20", "The command-line tool does what it is asked, completely or with failure",
 "For every config, the command-line tool with a combination of task flags exits successfully only if every asked task was done: the asked files exist with the content the library would write, and each route-pair was answered with the costs of an optimal path or reported as having none. If a config section is missing or invalid or a target exists, it exits with failure and changes no existing file; tasks that were not asked for create nothing.",
 ["configurations", "histories", "inputs"], "all flag combinations, configs with missing sections, repeated runs",
 "No test runs the binary.",
 ["src/bin/osmgraphing/mod.rs", "src/bin/osmgraphing/balancing/mod.rs"],
 [("task dispatch", "src/bin/osmgraphing/mod.rs:run")],
 ["exit status, created files, log lines"])
prop("C21", "A balancing run carries each iteration into the next",
 "A successful balancing run leaves one directory per iteration (metric updates plus one) in a new results directory, each with its config, map, contracted map, edge table and statistics. The workloads of an iteration are those of the route-pairs routed on its contracted map, with the balanced metric ignored in the first; the balanced metric handed to the next iteration follows the configured update rule from these workloads; all other edge data is carried over unchanged, and the balanced map equals the map before the last iteration. If a step fails (invalid config, failing external constructor, unreadable result, missing file), the run exits with failure. Files outside the new results directory never change.",
 ["configurations", "histories", "faults", "inputs"], "all maps, route-pairs, update counts and rules, metric orders, thread counts; a fault of each kind in each iteration",
 "No test runs the binary.",
 ["src/bin/osmgraphing/balancing/mod.rs", "src/bin/osmgraphing/balancing/multithreading.rs", "src/multi_ch_constructor/mod.rs", "src/defaults.rs"],
 [("iteration loop", "src/bin/osmgraphing/balancing/mod.rs:run"), ("external constructor", "src/multi_ch_constructor/mod.rs")],
 ["exit status, files in the results directory"])
prop("C22", "The wrapper hands the external constructor exactly what its config says",
 "For every config, the multi-ch-constructor binary configures the external constructor for the configured dimension and cost accuracy (0.0001 if omitted), builds it, and has it contract the configured map into the configured file with the configured ratio (99.8), thread count (4) and flags, each step once and in this order. It exits successfully iff every step did; after a step that fails, is killed or cannot be started, no later one is begun. A missing, malformed or incomplete config, unknown keys or values of a wrong type are refused before any step; other sections in the same file do not matter. No file but the contracted map and the constructor's own build changes.",
 ["configurations", "faults", "environments"], "all combinations of given and omitted options, every kind of config error, a failing, killed or absent tool in each step",
 "No test runs the wrapper: the constructor is a submodule that isn't there and its errors cannot be provoked.",
 ["src/multi_ch_constructor/mod.rs", "src/multi_ch_constructor/configs.rs", "src/multi_ch_constructor/defaults.rs", "src/bin/multi-ch-constructor.rs"],
 [("calls of the external tools", "src/multi_ch_constructor/mod.rs:build, construct_ch_graph"), ("config", "src/multi_ch_constructor/configs.rs")],
 ["exit status, commands started, written files"])
prop("C23", "The compiled number of metrics is a limit and nothing else",
 "However many metrics the library is compiled for (GRAPH_DIM), a config whose parsed and generated metrics together exceed this number is refused with an error, and every config that stays within it is accepted; what the graph then contains, what is exported and what routing answers is the same as in every other build, no matter how much of the room is used.",
 ["configurations", "environments", "inputs"], "all numbers of compiled metrics, all sequences of generated columns, all graphs with up to that many metrics",
 "The tests are compiled for one number of metrics and use configs that fit.",
 ["src/io/parsing/network/graph/mod.rs", "src/defaults.rs", "src/network/graph/mod.rs", "src/network/graph/building.rs"],
 [("limit", "src/io/parsing/network/graph/mod.rs:check_config"), ("inlined metrics", "src/defaults.rs:capacity")],
 ["result of parsing, dumped graph, exports, answers, in builds for several numbers of metrics"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
