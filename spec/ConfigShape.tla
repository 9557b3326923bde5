------------------------------ MODULE ConfigShape ------------------------------
(***************************************************************************)
(* The shape of the configurations, and which changes of a complete one      *)
(* leave something that is no configuration (C13).                          *)
(*                                                                         *)
(* An entry of a section: p is its path (keys, and positions in lists),      *)
(* req tells whether it has to be there, typ is what has to stand there,     *)
(* shut tells whether its surrounding section knows no further keys.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

X(p, req, typ, shut) == [p |-> p, req |-> req, typ |-> typ, shut |-> shut]

Parsing == {
  X(<<"parsing">>, TRUE, "map", FALSE),
  X(<<"parsing", "map-file">>, TRUE, "str", TRUE),
  X(<<"parsing", "vehicles">>, FALSE, "map", TRUE),
  X(<<"parsing", "vehicles", "category">>, TRUE, "enum", TRUE),
  X(<<"parsing", "vehicles", "are_drivers_picky">>, TRUE, "bool", TRUE),
  X(<<"parsing", "nodes">>, TRUE, "list", TRUE),
  X(<<"parsing", "nodes", "0">>, TRUE, "map", FALSE),
  X(<<"parsing", "nodes", "0", "meta">>, TRUE, "map", TRUE),
  X(<<"parsing", "nodes", "0", "meta", "info">>, TRUE, "enum", FALSE),
  X(<<"parsing", "nodes", "0", "meta", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "nodes", "1">>, TRUE, "map", FALSE),
  X(<<"parsing", "nodes", "1", "metric", "unit">>, TRUE, "enum", FALSE),
  X(<<"parsing", "nodes", "1", "metric", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "nodes", "2">>, TRUE, "map", FALSE),
  X(<<"parsing", "edges">>, TRUE, "map", TRUE),
  X(<<"parsing", "edges", "will_normalize_metrics_by_mean">>, FALSE, "bool", TRUE),
  X(<<"parsing", "edges", "data">>, TRUE, "list", TRUE),
  X(<<"parsing", "edges", "data", "0">>, TRUE, "map", FALSE),
  X(<<"parsing", "edges", "data", "0", "meta", "info">>, TRUE, "enum", FALSE),
  X(<<"parsing", "edges", "data", "0", "meta", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "edges", "data", "1">>, TRUE, "map", FALSE),
  X(<<"parsing", "edges", "data", "2", "metric">>, TRUE, "map", TRUE),
  X(<<"parsing", "edges", "data", "2", "metric", "unit">>, TRUE, "enum", FALSE),
  X(<<"parsing", "edges", "data", "2", "metric", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating">>, FALSE, "map", TRUE),
  X(<<"parsing", "generating", "nodes">>, TRUE, "list", TRUE),
  X(<<"parsing", "generating", "edges">>, TRUE, "list", TRUE),
  X(<<"parsing", "generating", "edges", "0", "custom", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "0", "custom", "default">>, FALSE, "num", FALSE),
  X(<<"parsing", "generating", "edges", "0", "custom", "unit">>, FALSE, "enum", FALSE),
  X(<<"parsing", "generating", "edges", "1", "haversine", "unit">>, TRUE, "enum", FALSE),
  X(<<"parsing", "generating", "edges", "1", "haversine", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "2", "copy", "from">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "edges", "2", "copy", "to">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "edges", "2", "copy", "from", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "2", "copy", "from", "unit">>, TRUE, "enum", FALSE),
  X(<<"parsing", "generating", "edges", "2", "copy", "to", "unit">>, TRUE, "enum", FALSE),
  X(<<"parsing", "generating", "edges", "2", "copy", "to", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "3">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "edges", "3", "convert", "from">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "edges", "3", "convert", "to">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "edges", "3", "convert", "from", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "3", "convert", "to", "unit">>, TRUE, "enum", FALSE),
  X(<<"parsing", "generating", "edges", "4", "calc", "result">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "edges", "4", "calc", "a">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "edges", "4", "calc", "b">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "edges", "4", "calc", "result", "unit">>, TRUE, "enum", FALSE),
  X(<<"parsing", "generating", "edges", "4", "calc", "a", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "4", "calc", "b", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "5", "meta", "info">>, TRUE, "enum", FALSE),
  X(<<"parsing", "generating", "edges", "5", "meta", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "6", "merge", "from">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "6", "merge", "with_header-line">>, FALSE, "bool", FALSE),
  X(<<"parsing", "generating", "edges", "6", "merge", "edge-id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "edges", "6", "merge", "edges-info">>, TRUE, "list", FALSE),
  X(<<"parsing", "generating", "edges", "6", "merge", "edges-info", "0", "id">>, TRUE, "str", FALSE),
  X(<<"parsing", "generating", "nodes", "0">>, TRUE, "map", FALSE),
  X(<<"parsing", "generating", "nodes", "0", "meta", "info">>, TRUE, "enum", FALSE),
  X(<<"parsing", "generating", "nodes", "0", "meta", "id">>, TRUE, "str", FALSE)}

(* what to monitor: the one of the balancer and the one of the evaluation *)
Monitored(top) == {
  X(<<top, "monitoring", "edges-info">>, TRUE, "map", FALSE),
  X(<<top, "monitoring", "edges-info", "file">>, TRUE, "str", TRUE),
  X(<<top, "monitoring", "edges-info", "with_shortcuts">>, FALSE, "bool", TRUE),
  X(<<top, "monitoring", "edges-info", "will_denormalize_metrics_by_mean">>, FALSE, "bool", TRUE),
  X(<<top, "monitoring", "edges-info", "ids">>, TRUE, "list", TRUE),
  X(<<top, "monitoring", "edges-info", "ids", "0", "id">>, TRUE, "str", TRUE),
  X(<<top, "monitoring", "export_vehicles_for_SMARTS">>, FALSE, "bool", FALSE)}

Routing == {
  X(<<"routing">>, TRUE, "map", FALSE),
  X(<<"routing", "route-pairs-file">>, FALSE, "str", TRUE),
  X(<<"routing", "algorithm">>, TRUE, "enum", TRUE),
  X(<<"routing", "metrics">>, TRUE, "list", TRUE),
  X(<<"routing", "metrics", "0", "id">>, TRUE, "str", TRUE),
  X(<<"routing", "metrics", "0", "alpha">>, FALSE, "num", TRUE),
  X(<<"routing", "metrics", "0", "tolerated-scale">>, FALSE, "str", TRUE)}

WritingGraph == {
  X(<<"writing">>, TRUE, "map", FALSE),
  X(<<"writing", "graph">>, TRUE, "map", FALSE),
  X(<<"writing", "graph", "map-file">>, TRUE, "str", TRUE),
  X(<<"writing", "graph", "nodes">>, TRUE, "list", TRUE),
  X(<<"writing", "graph", "nodes", "0", "id">>, TRUE, "str", TRUE),
  X(<<"writing", "graph", "edges">>, TRUE, "map", TRUE),
  X(<<"writing", "graph", "edges", "with_shortcuts">>, FALSE, "bool", TRUE),
  X(<<"writing", "graph", "edges", "will_denormalize_metrics_by_mean">>, FALSE, "bool", TRUE),
  X(<<"writing", "graph", "edges", "ids">>, TRUE, "list", TRUE),
  X(<<"writing", "graph", "edges", "ids", "0", "id">>, TRUE, "str", TRUE)}

WritingEdges == {
  X(<<"writing">>, TRUE, "map", FALSE),
  X(<<"writing", "edges-info">>, TRUE, "map", FALSE),
  X(<<"writing", "edges-info", "file">>, TRUE, "str", TRUE),
  X(<<"writing", "edges-info", "with_shortcuts">>, FALSE, "bool", TRUE),
  X(<<"writing", "edges-info", "will_denormalize_metrics_by_mean">>, FALSE, "bool", TRUE),
  X(<<"writing", "edges-info", "ids">>, TRUE, "list", TRUE),
  X(<<"writing", "edges-info", "ids", "0", "id">>, TRUE, "str", TRUE)}

WritingRoutes == {
  X(<<"writing">>, TRUE, "map", FALSE),
  X(<<"writing", "route-pairs">>, TRUE, "map", FALSE),
  X(<<"writing", "route-pairs", "file">>, TRUE, "str", FALSE),
  X(<<"writing", "route-pairs", "random_or_all">>, TRUE, "map", FALSE),
  X(<<"writing", "route-pairs", "random_or_all", "seed">>, FALSE, "nat", FALSE),
  X(<<"writing", "route-pairs", "random_or_all", "max_count">>, TRUE, "nat", FALSE)}

Balancing == {
  X(<<"balancing">>, TRUE, "map", FALSE),
  X(<<"balancing", "seed">>, FALSE, "nat", FALSE),
  X(<<"balancing", "results-dir">>, TRUE, "str", FALSE),
  X(<<"balancing", "iter-0-cfg">>, TRUE, "str", FALSE),
  X(<<"balancing", "iter-i-cfg">>, TRUE, "str", FALSE),
  X(<<"balancing", "number_of_metric-updates">>, TRUE, "nat", FALSE),
  X(<<"balancing", "monitoring">>, TRUE, "map", FALSE),
  X(<<"balancing", "optimizing_with">>, TRUE, "map", FALSE),
  X(<<"balancing", "optimizing_with", "metric-id">>, TRUE, "str", TRUE),
  X(<<"balancing", "optimizing_with", "method">>, TRUE, "map", TRUE),
  X(<<"balancing", "optimizing_with", "method", "explicit_euler">>, TRUE, "map", FALSE),
  X(<<"balancing", "optimizing_with", "method", "explicit_euler", "correction">>, TRUE, "num", FALSE),
  X(<<"balancing", "number_of_threads">>, FALSE, "nat", FALSE),
  X(<<"balancing", "min_new_metric">>, FALSE, "num", FALSE),
  X(<<"balancing", "throw_err_when_new_metric_is_zero">>, FALSE, "bool", FALSE),
  X(<<"balancing", "multi-ch-constructor">>, TRUE, "map", FALSE),
  X(<<"balancing", "multi-ch-constructor", "fmi-graph">>, TRUE, "str", TRUE),
  X(<<"balancing", "multi-ch-constructor", "contracted-graph">>, TRUE, "str", TRUE),
  X(<<"balancing", "multi-ch-constructor", "dimension">>, TRUE, "nat", TRUE),
  X(<<"balancing", "multi-ch-constructor", "contraction-ratio">>, FALSE, "str", TRUE),
  X(<<"balancing", "multi-ch-constructor", "cost-accuracy">>, FALSE, "num", TRUE),
  X(<<"balancing", "multi-ch-constructor", "number_of_threads">>, FALSE, "nat", TRUE),
  X(<<"balancing", "multi-ch-constructor", "is_printing_osm-ids">>, TRUE, "bool", TRUE),
  X(<<"balancing", "multi-ch-constructor", "is_using_external_edge-ids">>, TRUE, "bool", TRUE)}
  \cup Monitored("balancing")

Evaluating == {
  X(<<"evaluating_balance">>, TRUE, "map", FALSE),
  X(<<"evaluating_balance", "seed">>, FALSE, "nat", TRUE),
  X(<<"evaluating_balance", "results-dir">>, TRUE, "str", TRUE),
  X(<<"evaluating_balance", "number_of_threads">>, FALSE, "nat", TRUE),
  X(<<"evaluating_balance", "monitoring">>, TRUE, "map", TRUE)}
  \cup Monitored("evaluating_balance")

Sections == {"parsing", "routing", "wgraph", "wedges", "wroutes", "balancing", "evaluating"}
Entries(sec) ==
  CASE sec = "parsing" -> Parsing [] sec = "routing" -> Routing [] sec = "wgraph" -> WritingGraph
    [] sec = "wedges" -> WritingEdges [] sec = "wroutes" -> WritingRoutes [] sec = "balancing" -> Balancing
    [] sec = "evaluating" -> Evaluating

(* what may stand in place of an entry: never what has to stand there *)
Wrong(typ) ==
  CASE typ = "map" -> {"word", "number", "yes", "list"}
    [] typ = "list" -> {"word", "number", "yes", "map"}
    [] typ = "str" -> {"list", "map"}
    [] typ = "enum" -> {"word", "number", "list"}
    [] typ = "nat" -> {"word", "negative", "fraction", "list", "map", "yes"}
    [] typ = "num" -> {"word", "list", "map", "yes"}
    [] typ = "bool" -> {"word", "number", "list", "map"}

(* a change: an entry is left out, spelled differently, stands there twice, or something else stands there *)
IsItem(e) == e.p[Len(e.p)] \in {"0", "1", "2", "3", "4", "5", "6"}
Changes(sec) ==
       {[do |-> "del", p |-> e.p, w |-> ""] : e \in {x \in Entries(sec) : ~IsItem(x)}}
  \cup {[do |-> "ren", p |-> e.p, w |-> ""] : e \in {x \in Entries(sec) : ~IsItem(x)}}
  \cup {[do |-> "dup", p |-> e.p, w |-> ""] : e \in {x \in Entries(sec) : ~IsItem(x)}}
  \cup UNION {{[do |-> "put", p |-> e.p, w |-> w] : w \in Wrong(e.typ)} : e \in Entries(sec)}
  \cup UNION {{[do |-> "null", p |-> e.p, w |-> ""] : e \in {x \in Entries(sec) : x.req /\ x.typ \in {"map", "enum", "nat", "num", "bool"}}}}

Entry(sec, p) == CHOOSE e \in Entries(sec) : e.p = p
Breaks(sec, ch) ==
  LET e == Entry(sec, ch.p) IN
  CASE ch.do = "del" -> e.req
    [] ch.do = "ren" -> e.req \/ e.shut
    [] ch.do = "dup" -> e.shut    \* nobody can tell which of both is meant
    [] ch.do \in {"put", "null"} -> TRUE

(* muts are applied one after another; one that does not find its entry any more does nothing and is not listed *)
ShapeFaults(sec, muts, ok) ==
  IF ok /\ \E k \in 1..Len(muts) : Breaks(sec, muts[k]) THEN {"malformed_configuration_accepted:" \o sec} ELSE {}
=============================================================================
