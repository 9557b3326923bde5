---------------------------- MODULE TraceBuilding ----------------------------
(* Validates recorded builds of graphs and lookups in them against Building. *)
EXTENDS Building, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Part   \* which clauses are judged: "C04", "C05", "C06" or "all"
VARIABLES c, l, map, g, bad
vars == <<c, l, map, g, bad>>
Judge(p, S) == IF Part = p \/ Part = "all" THEN S ELSE {}

Init == c \in 1..Len(Cases) /\ l = 1 /\ map = <<>> /\ g = <<>> /\ bad = {}
Event(op) == l <= Len(Cases[c].ev) /\ Cases[c].ev[l].op = op
E == Cases[c].ev[l]

TraceBuild ==
  /\ Event("build")
  /\ map' = E.map /\ g' = E.g
  /\ bad' = IF Admissible(E.map)
            THEN IF ~E.ok THEN {"admissible_map_refused"}
                 ELSE   Judge("C04", NodeFaults(E.map, E.g) \cup EdgeFaults(E.map, E.g) \cup AdjacencyFaults(E.g))
                   \cup Judge("C05", ShortcutFaults(E.map, E.g))
                   \cup Judge("C06", EdgeFaults(E.map, E.g) \cup NodeFaults(E.map, E.g))
            ELSE Judge("C06", IF E.ok THEN   (IF MissingCoordinate(E.map) THEN {"edge_without_coordinates_accepted"} ELSE {})
                                         \cup (IF AmbiguousEdgeId(E.map) THEN {"ambiguous_edge_id_accepted"} ELSE {})
                                         \cup (IF NegativeMetric(E.map) THEN {"negative_metric_accepted"} ELSE {})
                                         \cup (IF DanglingShortcut(E.map) THEN {"dangling_shortcut_accepted"} ELSE {})
                              ELSE {})
(* a large admissible map, whose graph is looked at in some places only (all edges and nodes, some lists and shortcuts) *)
TraceLarge ==
  /\ Event("large")
  /\ map' = E.map /\ g' = E.g
  /\ bad' = IF ~Admissible(E.map) THEN {"GEN_large_map_inadmissible"}
            ELSE IF ~E.ok THEN {"admissible_map_refused"}
            ELSE   Judge("C04", NodeFaults(E.map, E.g) \cup EdgeFaults(E.map, E.g) \cup SomeAdjacencyFaults(E.g, E.some))
              \cup Judge("C05", SomeShortcutFaults(E.map, E.g, E.pairs))
              \cup Judge("C06", EdgeFaults(E.map, E.g) \cup NodeFaults(E.map, E.g))
TraceBetween == Event("between") /\ UNCHANGED <<map, g>> /\ bad' = Judge("C04", BetweenFaults(g, E.btw))
TraceFlat == Event("flat") /\ UNCHANGED <<map, g>>
             /\ bad' = Judge("C05", UNION {FlatFaults(g, E.paths[k], E.dim) : k \in 1..Len(E.paths)})
TraceLookup == Event("lookup") /\ UNCHANGED <<map, g>> /\ bad' = Judge("C06", LookupFaults(map, g, E))
TraceBroken == Event("broken") /\ UNCHANGED <<map, g>> /\ bad' = {E.what}
Next == /\ TraceBuild \/ TraceLarge \/ TraceBetween \/ TraceFlat \/ TraceLookup \/ TraceBroken
        /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
