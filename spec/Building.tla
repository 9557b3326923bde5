------------------------------- MODULE Building -------------------------------
(***************************************************************************)
(* The relation between a map and the graph built from it (C04, C05, C06).  *)
(*                                                                         *)
(* A map is a record                                                        *)
(*   N   <<[id, lat, lon, lvl], ...>>   node-lines (ids are abstract         *)
(*       numbers, order-preserving images of the real ids)                   *)
(*   E   <<[s, d, m, sc, id], ...>>     edge-lines; s and d are node-ids,     *)
(*       sc is <<>> or two positions in E, id is an edge-id or None           *)
(* A built graph is a record                                                *)
(*   n, N, E      nodes and edges in graph-order; E[i] = [s, d, m, sc, issc,   *)
(*                id] with s, d node-positions and sc edge-positions           *)
(*   out, in      per node <<[e, d, m], ...>>: its leaving (entering) edges    *)
(*   nc, fc, bc   the counts the graph reports                               *)
(***************************************************************************)
EXTENDS Graphs

None == -1
Tiny == -7   \* what a metric of zero becomes: some tiny positive value

(* ------------------------------ admissible maps ------------------------------ *)
NodeIds(map) == {map.N[i].id : i \in 1..Len(map.N)}
EndpointIds(map) == {map.E[i].s : i \in 1..Len(map.E)} \cup {map.E[i].d : i \in 1..Len(map.E)}
Value(x) == IF x = 0 THEN Tiny ELSE x
Values(m) == [k \in 1..Len(m) |-> Value(m[k])]
IsSc(e) == e.sc # <<>>

(* what identifies an edge of a map; repetitions are the same edge *)
KeyOf(e) == [s |-> e.s, d |-> e.d, m |-> Values(e.m), issc |-> IsSc(e), id |-> e.id]
Keys(map) == {KeyOf(map.E[i]) : i \in 1..Len(map.E)}

MissingCoordinate(map) == ~(EndpointIds(map) \subseteq NodeIds(map))
(* two different edges carry the same id *)
AmbiguousEdgeId(map) == LET K == {x \in Keys(map) : x.id # None} IN Cardinality({x.id : x \in K}) # Cardinality(K)
NegativeMetric(map) == \E i \in 1..Len(map.E) : \E k \in 1..Len(map.E[i].m) : map.E[i].m[k] < 0
DanglingShortcut(map) == \E i \in 1..Len(map.E) : IsSc(map.E[i]) /\ \E k \in {1, 2} : map.E[i].sc[k] \notin 1..Len(map.E)
Admissible(map) == ~MissingCoordinate(map) /\ ~AmbiguousEdgeId(map) /\ ~NegativeMetric(map) /\ ~DanglingShortcut(map)

(* ------------------------------ the built graph ------------------------------ *)
KeyIn(g, i) == [s |-> g.N[g.E[i].s].id, d |-> g.N[g.E[i].d].id, m |-> g.E[i].m, issc |-> g.E[i].issc, id |-> g.E[i].id]
Indices(g) == 1..Len(g.E)
WellFormed(g) == \A i \in Indices(g) : g.E[i].s \in 1..Len(g.N) /\ g.E[i].d \in 1..Len(g.N)

NodeFaults(map, g) ==
  LET ends == EndpointIds(map)
      want == {map.N[i] : i \in {j \in 1..Len(map.N) : map.N[j].id \in ends}}
      have == {g.N[i] : i \in 1..Len(g.N)}
  IN   (IF {x.id : x \in have} # {x.id : x \in want} THEN {"wrong_nodes"} ELSE
        IF have # want THEN {"wrong_node_data"} ELSE {})
  \cup (IF Cardinality(have) # Len(g.N) THEN {"node_twice"} ELSE {})
  \cup (IF g.nc # Len(g.N) THEN {"wrong_node_count"} ELSE {})

EdgeFaults(map, g) ==
  IF ~WellFormed(g) THEN {"edge_without_endpoint"} ELSE
  LET have == {KeyIn(g, i) : i \in Indices(g)}
      want == Keys(map)
  IN   (IF want \ have # {} THEN {"edge_lost"} ELSE {})
  \cup (IF have \ want # {} THEN {"edge_invented"} ELSE {})
  \cup (IF Cardinality(have) # Len(g.E) THEN {"edge_twice"} ELSE {})
  \cup (IF g.fc # Len(g.E) \/ g.bc # Len(g.E) THEN {"wrong_edge_count"} ELSE {})

(* every node lists exactly its leaving (entering) edges, each once, with destination and metrics *)
ListedAt(g, v, list, Here(_), There(_)) ==
  LET S == {i \in Indices(g) : Here(g.E[i]) = v}
  IN  /\ {list[k].e : k \in 1..Len(list)} = S
      /\ Len(list) = Cardinality(S)
      /\ \A k \in 1..Len(list) : list[k].d = There(g.E[list[k].e]) /\ list[k].m = g.E[list[k].e].m
Lists(g, adj, Here(_), There(_)) ==
  /\ Len(adj) = Len(g.N)
  /\ \A v \in 1..Len(g.N) : ListedAt(g, v, adj[v], Here, There)
Src(e) == e.s
Dst(e) == e.d
AdjacencyFaults(g) ==
  IF ~WellFormed(g) THEN {} ELSE
       (IF ~Lists(g, g.out, Src, Dst) THEN {"wrong_leaving_edges"} ELSE {})
  \cup (IF ~Lists(g, g.in, Dst, Src) THEN {"wrong_entering_edges"} ELSE {})

(* the same for some nodes of a large graph: some = <<[v, out, in], ...>> *)
SomeAdjacencyFaults(g, some) ==
  IF ~WellFormed(g) THEN {} ELSE
       (IF \E k \in 1..Len(some) : ~ListedAt(g, some[k].v, some[k].out, Src, Dst) THEN {"wrong_leaving_edges"} ELSE {})
  \cup (IF \E k \in 1..Len(some) : ~ListedAt(g, some[k].v, some[k].in, Dst, Src) THEN {"wrong_entering_edges"} ELSE {})

(* between[<<a, b>>] = <<forward answer, backward answer>>, 0 for none *)
BetweenFaults(g, btw) ==
  UNION {LET x == btw[k]
             E(a, b) == {i \in Indices(g) : g.E[i].s = a /\ g.E[i].d = b}
             Right(ans, S) == IF S = {} THEN ans = 0 ELSE ans \in S
         IN   (IF ~Right(x.f, E(x.a, x.b)) THEN {"wrong_edge_between"} ELSE {})
         \cup (IF ~Right(x.r, E(x.b, x.a)) THEN {"wrong_backward_edge_between"} ELSE {})
         : k \in 1..Len(btw)}

(* ------------------------------ shortcuts ------------------------------ *)
(* each shortcut stands for edges that are equal (by endpoints and metrics) to those the map names *)
Alike(a, b) == a.s = b.s /\ a.d = b.d /\ a.m = b.m
ShortcutFaults(map, g) ==
  IF ~WellFormed(g) THEN {} ELSE
       (IF \E i \in Indices(g) : g.E[i].issc # (g.E[i].sc # <<>>)
        THEN {"shortcut_flag_wrong"} ELSE {})
  \cup (IF \E i \in Indices(g) : g.E[i].sc # <<>> /\
             (\/ \E k \in {1, 2} : g.E[i].sc[k] \notin Indices(g)
              \/ ~\E j \in 1..Len(map.E) :
                   /\ KeyOf(map.E[j]) = KeyIn(g, i)
                   /\ \A k \in {1, 2} : Alike(KeyOf(map.E[map.E[j].sc[k]]), KeyIn(g, g.E[i].sc[k])))
        THEN {"shortcut_stands_for_other_edges"} ELSE {})

(* the same for some shortcuts of a large graph: pairs = <<[i, j], ...>> of edges of the graph and the lines they come from *)
SomeShortcutFaults(map, g, pairs) ==
  IF ~WellFormed(g) THEN {} ELSE
       (IF \E i \in Indices(g) : g.E[i].issc # (g.E[i].sc # <<>>)
        THEN {"shortcut_flag_wrong"} ELSE {})
  \cup (IF \E k \in 1..Len(pairs) :
             LET i == pairs[k].i
                 j == pairs[k].j IN
             ~(/\ i \in Indices(g) /\ g.E[i].sc # <<>>
               /\ KeyOf(map.E[j]) = KeyIn(g, i)
               /\ \A x \in {1, 2} : g.E[i].sc[x] \in Indices(g) /\ Alike(KeyOf(map.E[map.E[j].sc[x]]), KeyIn(g, g.E[i].sc[x])))
        THEN {"shortcut_stands_for_other_edges"} ELSE {})

(* a flattened path: fl = [p, err, fp, fc] *)
FlatFaults(g, fl, dim) ==
  LET wf == WellFounded(g) IN
  IF \E k \in 1..Len(fl.p) : fl.p[k] \notin wf THEN (IF fl.err THEN {} ELSE {"cycle_not_reported"})
  ELSE IF fl.err THEN {"flattening_refused"}
  ELSE   (IF fl.fp # Flatten(g, fl.p) THEN {"wrong_flattening"}
          ELSE IF fl.fc # PathCosts(g, fl.fp, dim) THEN {"wrong_flat_costs"} ELSE {})

(* ------------------------------ lookups ------------------------------ *)
(* nodes: <<[id, idx (0: not found), cid, clat, clon, clvl], ...>>; edges: <<[id, f, b], ...>>     *)
LookupFaults(map, g, lk) ==
       (IF \E k \in 1..Len(lk.nodes) :
             LET x == lk.nodes[k] IN
             IF x.id \in EndpointIds(map)
             THEN ~(x.idx \in 1..Len(g.N) /\ g.N[x.idx].id = x.id)
             ELSE x.idx # 0
        THEN {"wrong_node_lookup"} ELSE {})
  \cup (IF \E k \in 1..Len(lk.nodes) :
             LET x == lk.nodes[k] IN
             IF x.id \in EndpointIds(map)
             THEN ~(\E i \in 1..Len(map.N) : map.N[i] = x.node)
             ELSE x.node.id # None
        THEN {"wrong_node_by_id"} ELSE {})
  \cup (IF \E k \in 1..Len(lk.edges) :
             LET x == lk.edges[k] IN
             IF \E i \in 1..Len(map.E) : map.E[i].id = x.id
             THEN ~(x.f \in Indices(g) /\ x.b = x.f /\ g.E[x.f].id = x.id)
             ELSE x.f # 0 \/ x.b # 0
        THEN {"wrong_edge_lookup"} ELSE {})
=============================================================================
