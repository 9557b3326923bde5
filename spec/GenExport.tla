------------------------------ MODULE GenExport ------------------------------
(* Enumerates what can be asked of an export (C09, C10, C11, C19): selections of columns, route-pairs of all graphs with
   three nodes, and route-pair-files as sequences of kinds of lines. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Part, Len1, Len2
Selections(K, n) == UNION {[1..k -> K] : k \in 1..n}
NodeColumns == {"NodeId", "NodeIdx", "CHLevel", "Latitude", "Longitude", "ignored", "unknown"}
EdgeColumns == {"EdgeId", "SrcId", "SrcIdx", "SrcLat", "SrcLon", "DstId", "DstIdx", "DstLat", "DstLon", "ShortcutIdx0", "ShortcutIdx1",
                "metric1", "metric2", "ignored", "unknown"}
Pairs == {p \in (1..3) \X (1..3) : p[1] # p[2]}
(* a line of a route-pair-file: a count (0, 1, 2, or none), or a route with 2, 3 or 4 values or with a value that is no number *)
Lines == {"count0", "count1", "count2", "countx", "route2", "route3", "route4", "src", "dst", "num"}
Asked ==
  CASE Part = "nodes"  -> Selections(NodeColumns, Len1)
    [] Part = "edges"  -> Selections(EdgeColumns, Len1)
    [] Part = "graphs" -> {SetToSeq(S) : S \in (SUBSET Pairs) \ {{}}}
    [] Part = "files"  -> {<<>>} \cup Selections(Lines, Len2)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUTFILE, SetToSeq(Asked))
Spec == Init /\ [][Next]_done
=============================================================================
