------------------------------ MODULE Exporting ------------------------------
(***************************************************************************)
(* What an exported file says about a graph (C09, C10, C11, C19), as tables  *)
(* of cells.  A graph is as in Building.  A column is a record [w, k]:        *)
(* w tells what it shows, k is the metric for w = "metric".                   *)
(* Columns "ignored" are written but mean nothing, "unknown" is not known to   *)
(* the graph.                                                               *)
(***************************************************************************)
EXTENDS Building

Ignore == -5   \* image of the placeholder
NoShortcut == -1

NodeCell(g, v, c) ==
  CASE c.w = "NodeId" -> g.N[v].id [] c.w = "NodeIdx" -> v - 1 [] c.w = "CHLevel" -> g.N[v].lvl
    [] c.w = "Latitude" -> g.N[v].lat [] c.w = "Longitude" -> g.N[v].lon [] c.w = "ignored" -> Ignore
EdgeCell(g, e, c) ==
  LET s == g.E[e].s  d == g.E[e].d IN
  CASE c.w = "EdgeId" -> g.E[e].id
    [] c.w = "SrcId" -> g.N[s].id [] c.w = "SrcIdx" -> s - 1 [] c.w = "SrcLat" -> g.N[s].lat [] c.w = "SrcLon" -> g.N[s].lon
    [] c.w = "DstId" -> g.N[d].id [] c.w = "DstIdx" -> d - 1 [] c.w = "DstLat" -> g.N[d].lat [] c.w = "DstLon" -> g.N[d].lon
    [] c.w = "ShortcutIdx0" -> IF g.E[e].sc = <<>> THEN NoShortcut ELSE g.E[e].sc[1] - 1
    [] c.w = "ShortcutIdx1" -> IF g.E[e].sc = <<>> THEN NoShortcut ELSE g.E[e].sc[2] - 1
    [] c.w = "metric" -> g.E[e].m[c.k] [] c.w = "ignored" -> Ignore
Row(Cell(_, _, _), g, x, cols) == [k \in 1..Len(cols) |-> Cell(g, x, cols[k])]

Known(cols) == \A k \in 1..Len(cols) : cols[k].w # "unknown"
Metrics(cols) == Cardinality({k \in 1..Len(cols) : cols[k].w = "metric"})
(* the exported edges in graph-order *)
Listed(g, sc) == SelectSeq([i \in 1..Len(g.E) |-> i], LAMBDA i : sc \/ g.E[i].sc = <<>>)
EdgeRows(g, cols, sc) == LET L == Listed(g, sc) IN [k \in 1..Len(L) |-> Row(EdgeCell, g, L[k], cols)]
NodeRows(g, cols) == [v \in 1..Len(g.N) |-> Row(NodeCell, g, v, cols)]

MapFaults(g, x) ==
  IF ~Known(x.ncols) \/ ~Known(x.ecols) THEN (IF x.ok THEN {"unknown_column_accepted"} ELSE {})
  ELSE IF ~x.ok THEN {"export_refused"}
  ELSE   (IF x.counts # <<Metrics(x.ecols), Len(g.N), Len(Listed(g, x.sc))>> THEN {"wrong_counts_in_header"} ELSE {})
    \cup (IF x.nrows # NodeRows(g, x.ncols) THEN {"wrong_node_rows"} ELSE {})
    \cup (IF x.erows # EdgeRows(g, x.ecols, x.sc) THEN {"wrong_edge_rows"} ELSE {})

TableFaults(g, x) ==
  IF ~Known(x.cols) THEN (IF x.ok THEN {"unknown_column_accepted"} ELSE {})
  ELSE IF ~x.ok THEN {"export_refused"}
  ELSE   (IF x.header # x.names THEN {"wrong_header"} ELSE {})
    \cup (IF x.rows # EdgeRows(g, x.cols, x.sc) THEN {"wrong_rows"} ELSE {})

(* ---- reading back ---- *)
(* the map an exported file describes; with idx, positions are taken as ids *)
MapOf(g, x) ==
  LET L == Listed(g, x.sc)
      Id(v) == IF x.idx THEN v ELSE g.N[v].id
  IN [N |-> [v \in 1..Len(g.N) |-> [id |-> Id(v), lat |-> g.N[v].lat, lon |-> g.N[v].lon, lvl |-> IF x.lvl THEN g.N[v].lvl ELSE 0]],
      E |-> [k \in 1..Len(L) |-> LET e == g.E[L[k]] IN
              [s |-> Id(e.s), d |-> Id(e.d), m |-> [j \in 1..Len(x.mets) |-> IF e.m[x.mets[j]] = Tiny THEN 0 ELSE e.m[x.mets[j]]],
               sc |-> IF x.refs THEN e.sc ELSE <<>>, id |-> IF x.eid THEN e.id ELSE None]]]
RereadFaults(g, x) ==
  IF ~x.ok THEN {"exported_map_not_readable"}
  ELSE LET map == MapOf(g, x) IN NodeFaults(map, x.g) \cup EdgeFaults(map, x.g) \cup AdjacencyFaults(x.g) \cup ShortcutFaults(map, x.g)

(* an exported table merged by edge-id into a graph whose metrics were all x.other *)
MergeFaults(g, x) ==
  IF ~x.ok THEN {"exported_table_not_readable"}
  ELSE IF {x.E[j].id : j \in 1..Len(x.E)} # {g.E[i].id : i \in Indices(g)} \/ Len(x.E) # Len(g.E) THEN {"edge_ids_not_kept"}
  ELSE UNION {UNION {IF g.E[i].id # x.E[j].id THEN {} ELSE
          IF x.E[j].m = [k \in 1..Len(g.E[i].m) |-> IF (x.sc \/ g.E[i].sc = <<>>) /\ k \in {x.mets[a] : a \in 1..Len(x.mets)}
                                                     THEN g.E[i].m[k] ELSE x.other]
          THEN {} ELSE {"exported_values_not_restored"} : j \in 1..Len(x.E)} : i \in Indices(g)}

(* ---- route-pairs ---- *)
Connected(g) == {p \in (1..Len(g.N)) \X (1..Len(g.N)) : p[1] # p[2] /\ Dist(g, [i \in Indices(g) |-> 1], p[1])[p[2]] < Inf}
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RouteFaults(g, x) ==
  IF ~x.ok THEN {"export_refused"} ELSE
  LET all == {<<g.N[p[1]].id, g.N[p[2]].id>> : p \in Connected(g)}
      got == {<<x.rows[k][1], x.rows[k][2]>> : k \in 1..Len(x.rows)}
  IN   (IF x.count # Len(x.rows) THEN {"wrong_route_count"} ELSE {})
  \cup (IF ~(got \subseteq all) THEN {"route_without_path"} ELSE {})
  \cup (IF \E k \in 1..Len(x.rows) : Len(x.rows[k]) # 3 \/ x.rows[k][3] # 1 THEN {"wrong_route_line"} ELSE {})
  \cup (IF \E k \in 1..(Len(x.rows) - 1) : ~Less(x.rows[k], x.rows[k + 1]) THEN {"routes_unsorted_or_twice"} ELSE {})
  \cup (IF Len(x.rows) > x.max THEN {"too_many_routes"} ELSE {})
  \cup (IF Len(g.N) * Len(g.N) <= x.max /\ got # all THEN {"routes_missing"} ELSE {})
  \cup (IF x.again # x.rows THEN {"not_reproducible"} ELSE {})
  \cup (IF x.back # x.rows THEN {"routes_not_read_back"} ELSE {})

(* ---- reading route-pairs: lines of tokens, a token that is no number being Bad ---- *)
Bad == -999999999
RECURSIVE HeaderLength(_)
HeaderLength(lines) == IF lines = <<>> \/ Len(Head(lines)) # 1 THEN 0 ELSE 1 + HeaderLength(Tail(lines))
RouteFile(lines) ==
  LET h == HeaderLength(lines)
      counts == SelectSeq([i \in 1..h |-> lines[i][1]], LAMBDA x : x >= 0)
      n == IF counts = <<>> THEN 0 ELSE counts[Len(counts)]
  IN IF counts = <<>> \/ Len(lines) < h + n THEN [ok |-> FALSE, rows |-> <<>>]
     ELSE LET rows == SubSeq(lines, h + 1, h + n)
              fine == \A i \in 1..n : Len(rows[i]) = 3 /\ rows[i][1] # Bad /\ rows[i][2] # Bad /\ rows[i][3] >= 0
          IN [ok |-> fine, rows |-> IF fine THEN rows ELSE <<>>]
(* lines in front of the first count: whether they are skipped or refused is left open *)
Preamble(lines) == lines # <<>> /\ Len(lines[1]) # 1 /\ \E i \in 1..Len(lines) : Len(lines[i]) = 1
RouteFileFaults(x) ==
  LET want == RouteFile(x.lines)
  IN IF Preamble(x.lines) THEN {} ELSE IF want.ok # x.ok THEN (IF x.ok THEN {"malformed_route_file_accepted"} ELSE {"route_file_refused"})
     ELSE IF x.ok /\ x.rows # want.rows THEN {"wrong_route_pairs"} ELSE {}

(* ---- vehicles and workloads ---- *)
Walk(g, p) == IF p.edges = <<>> THEN <<>> ELSE <<g.N[p.src].id>> \o [k \in 1..Len(p.edges) |-> g.N[g.E[p.edges[k]].d].id]
VehicleFaults(g, x) ==
  IF ~x.ok THEN {"export_refused"} ELSE
  IF ~x.form THEN {"malformed_vehicles"} ELSE
  IF Len(x.got) # Len(x.paths) THEN {"wrong_number_of_vehicles"}
  ELSE UNION {   (IF x.got[k].from # g.N[x.paths[k].src].id \/ x.got[k].to # g.N[x.paths[k].dst].id THEN {"wrong_vehicle"} ELSE {})
            \cup (IF x.got[k].nodes # Walk(g, x.paths[k]) THEN {"wrong_vehicle_nodes"} ELSE {}) : k \in 1..Len(x.paths)}
WorkloadFaults(g, x) ==
  IF ~x.ok THEN {"export_refused"} ELSE
  LET L == Listed(g, x.sc)
  IN   (IF x.header # <<"edge-id", "num_routes">> THEN {"wrong_header"} ELSE {})
  \cup (IF x.rows # [k \in 1..Len(L) |-> <<g.E[L[k]].id, x.vals[L[k]]>>] THEN {"wrong_workload_rows"} ELSE {})
=============================================================================
