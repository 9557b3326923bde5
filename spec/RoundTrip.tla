------------------------------ MODULE RoundTrip ------------------------------
(***************************************************************************)
(* Exporting after building (C04, C05, C09, C10): every graph that the       *)
(* build pipeline (Builder) makes of a list of edges is a faithful image of   *)
(* the map it is exported as, with or without shortcuts, by ids or by         *)
(* positions, and the rows of an export tell all edges apart that differ.     *)
(***************************************************************************)
EXTENDS Builder, Exporting
Ways == {[sc |-> sc, idx |-> idx, lvl |-> TRUE, mets |-> <<1>>, refs |-> sc, eid |-> FALSE] : sc \in BOOLEAN, idx \in BOOLEAN}
MapComesBack == pc = "done" => \A x \in Ways :
  LET g == Built
      map == MapOf(g, x)
      kept == Listed(g, x.sc)
  IN /\ Keys(map) = {IF x.idx THEN [KeyIn(g, kept[k]) EXCEPT !.s = g.E[kept[k]].s, !.d = g.E[kept[k]].d] ELSE KeyIn(g, kept[k]) : k \in 1..Len(kept)}
     /\ Admissible(map)
     /\ (x.sc /\ ~x.idx) => NodeFaults(map, g) \cup EdgeFaults(map, g) \cup ShortcutFaults(map, g) = {}
Columns == <<[w |-> "SrcIdx", k |-> 0], [w |-> "DstIdx", k |-> 0], [w |-> "metric", k |-> 1], [w |-> "ShortcutIdx0", k |-> 0]>>
ColumnsTell == pc = "done" =>
  LET rows == EdgeRows(Built, Columns, TRUE)
      plain == EdgeRows(Built, Columns, FALSE)
  IN /\ Len(rows) = Len(Built.E)
     /\ Len(plain) = Cardinality({i \in 1..Len(Built.E) : Built.E[i].sc = <<>>})
     /\ \A a, b \in 1..Len(plain) : a # b => plain[a] # plain[b]
=============================================================================
