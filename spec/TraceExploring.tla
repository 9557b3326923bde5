--------------------------- MODULE TraceExploring ---------------------------
(* Validates recorded explorations of one explorator on changing graphs.       *)
EXTENDS Exploring, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, graphs, bad
vars == <<c, l, graphs, bad>>

EdgeKeys(g) == {[s |-> g.E[i].s, d |-> g.E[i].d, m |-> g.E[i].m] : i \in EdgeIdxs(g)}
SameGraph(g, gin) == g.n = gin.n /\ EdgeKeys(g) = EdgeKeys(gin)
OrigOf(g, w) == TLCEval([i \in EdgeIdxs(g) |-> IF IsShortcut(g, i) THEN Inf ELSE w[i]])

(* fresh: cost-vectors that an unused explorator finds for the same query *)
LateViolations(q) == IF \E j \in 1..Len(q.fresh) : \A i \in 1..Len(q.found) : q.found[i].c # q.fresh[j] THEN {"worse_than_fresh"} ELSE {}

Violations(gr, e) ==
  LET g  == gr.gin
      ks == SetToSortedSeq(Considered(e.a))
      ss == {e.q[i].s : i \in 1..Len(e.q)}
      pareto == TLCEval([s \in ss |-> ParetoFrom(g, ks, s)])
      dists  == TLCEval([s \in ss |-> TLCEval([m \in Masks(e.a) |-> Dist(g, OrigOf(g, Weights(g, m)), s)])])
  IN UNION {ExploreViolations(gr.g, e.a, e.scales, e.q[i].s, e.q[i].d, e.q[i].found, pareto[e.q[i].s], dists[e.q[i].s])
            \cup LateViolations(e.q[i]) : i \in 1..Len(e.q)}

Init == c \in 1..Len(Cases) /\ l = 1 /\ graphs = <<>> /\ bad = {}
Event(op) == l <= Len(Cases[c].ev) /\ Cases[c].ev[l].op = op
Graph == /\ Event("graph")
         /\ LET e == Cases[c].ev[l] IN
            /\ graphs' = Append(graphs, [g |-> e.g, gin |-> e.gin])
            /\ bad' = IF SameGraph(e.g, e.gin) THEN {} ELSE {"graph_differs_from_map"}
Explore == /\ Event("explore")
           /\ graphs' = graphs
           /\ LET e == Cases[c].ev[l] IN
              bad' = (IF e.algo = "CHDijkstra" /\ \E m \in Masks(e.a) : ~ValidHierarchy(graphs[e.k].gin, Weights(graphs[e.k].gin, m)) THEN {"GEN_invalid_hierarchy"}
                      ELSE IF Considered(e.a) = {} THEN {"GEN_nothing_considered"}
                      ELSE Violations(graphs[e.k], e))
Broken == /\ Event("broken") /\ graphs' = graphs /\ bad' = {Cases[c].ev[l].what}
Next == (Graph \/ Explore \/ Broken) /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
