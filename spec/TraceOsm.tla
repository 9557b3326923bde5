------------------------------ MODULE TraceOsm ------------------------------
(* Judges graphs built from OSM files.                                         *)
EXTENDS OsmImport, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad
vars == <<c, l, bad>>
If(b, name) == IF b THEN {} ELSE {name}

GraphViolations(e) ==
  LET ways == e.ways
      E == e.E
      ids == {e.N[i].id : i \in 1..Len(e.N)}
  IN   If(EachEdgeIsGiven(ways, e.cfg, e.cols, E), "edge_not_in_file")
  \cup If(EachHopIsThere(ways, e.cfg, e.cols, E), "edge_missing")
  \cup If(NoEdgeTwice(E), "edge_twice")
  \cup If(ids = Needed(ways, e.cfg) /\ Cardinality(ids) = Len(e.N), "nodes")
  \cup If(\A i \in 1..Len(e.N) : e.N[i].id \in 1..Len(e.pos) =>
            e.N[i].lat = e.pos[e.N[i].id][1] /\ e.N[i].lon = e.pos[e.N[i].id][2], "coordinates")

Violations(e) ==
  IF \E i \in 1..Len(e.ways) : Unspecified(e.ways[i], e.cfg) \/ ~Known(e.ways[i]) THEN {"GEN_unspecified"}
  ELSE IF e.res \notin {"ok", "err"} THEN {e.res}
  ELSE IF \E n \in Needed(e.ways, e.cfg) : n > Len(e.pos) THEN If(e.res = "err", "unknown_node_accepted")
  ELSE IF e.unsupported THEN If(e.res = "err", "unsupported_column_accepted")
  ELSE IF e.res = "err" THEN {"file_refused"}
  ELSE GraphViolations(e)

Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Cases[c].ev)
        /\ bad' = Violations(Cases[c].ev[l])
        /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
