------------------------------ MODULE Routing ------------------------------
(***************************************************************************)
(* What a routing query has to answer (C01, C02, C03).                     *)
(* An answer is a record                                                   *)
(*   found  BOOLEAN;  if found:                                            *)
(*   p, c   edges and per-metric costs of the path                         *)
(*   fp, fc edges and per-metric costs after replacing shortcuts           *)
(***************************************************************************)
EXTENDS Graphs

NonNegative(a) == \A k \in 1..Len(a) : a[k] >= 0

(* clauses violated by a plain answer for s -> d; dist is Dist(g, w, s) of the whole graph *)
PlainViolations(g, a, w, dist, s, d, ans) ==
  IF ~NonNegative(a) THEN (IF ans.found THEN {"path_for_negative_weighting"} ELSE {})
  ELSE IF ~ans.found THEN (IF dist[d] # Inf THEN {"missed_path"} ELSE {})
  ELSE IF dist[d] = Inf THEN {"path_to_unreachable"}
  ELSE (IF ~IsPath(g, s, d, ans.p) THEN {"not_a_path"}
        ELSE    (IF ans.c # PathCosts(g, ans.p, Len(a)) THEN {"wrong_costs"} ELSE {})
           \cup (IF PathWeight(w, ans.p) # dist[d] THEN {"not_optimal"} ELSE {})
           \cup (IF s = d /\ ans.p # <<>> THEN {"edges_in_trivial_path"} ELSE {}))

(* clauses violated by what an answer looks like after replacing shortcuts.                     *)
(* g: graph with shortcuts, og: the same edges, used to check membership of originals;           *)
(* odist: distances in the graph of original edges                                               *)
FlatViolations(g, a, w, odist, s, d, ans) ==
  IF ~ans.found THEN {}
  ELSE IF ~IsPath(g, s, d, ans.fp) THEN {"flat_not_a_path"}
  ELSE    (IF \E k \in 1..Len(ans.fp) : IsShortcut(g, ans.fp[k]) THEN {"flat_has_shortcut"} ELSE {})
     \cup (IF ans.fp # Flatten(g, ans.p) THEN {"flat_is_not_the_expansion"} ELSE {})
     \cup (IF ans.fc # PathCosts(g, ans.fp, Len(a)) THEN {"flat_wrong_costs"} ELSE {})
     \cup (IF ans.fc # ans.c THEN {"flat_changes_costs"} ELSE {})
     \cup (IF PathWeight(w, ans.fp) # odist[d] THEN {"flat_not_optimal"} ELSE {})

(* distances over original edges only *)
OrigWeights(g, w) == TLCEval([i \in EdgeIdxs(g) |-> IF IsShortcut(g, i) THEN Inf ELSE w[i]])
=============================================================================
