---------------------------- MODULE TraceRouting ----------------------------
(***************************************************************************)
(* Validates recorded histories of routing queries against Routing.        *)
(* One case = one behaviour = a sequence of events of one router object:    *)
(*   [op |-> "graph", k, g, gin]   graph k becomes available; gin is the    *)
(*        graph the map describes, g what the implementation built          *)
(*   [op |-> "query", k, algo, a, q] queries q = <<[s, d, ans], ...>> with   *)
(*        weighting a on graph k                                            *)
(*   [op |-> "broken", what]         the implementation crashed or hung      *)
(***************************************************************************)
EXTENDS Routing, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, l, graphs, bad
vars == <<c, l, graphs, bad>>

(* the same edges, disregarding their order *)
EdgeKeys(g) == {[s |-> g.E[i].s, d |-> g.E[i].d, m |-> g.E[i].m] : i \in EdgeIdxs(g)}
SameGraph(g, gin) == g.n = gin.n /\ g.lvl = gin.lvl /\ EdgeKeys(g) = EdgeKeys(gin)

QueryViolations(gr, e) ==
  LET g    == gr.g
      gin  == gr.gin
      neg  == ~NonNegative(e.a)
      ws   == IF neg THEN <<>> ELSE Weights(g, e.a)
      w    == IF neg THEN <<>> ELSE IF gr.plain THEN Weights(gin, e.a) ELSE OrigWeights(gin, Weights(gin, e.a))
      srcs == {e.q[i].s : i \in 1..Len(e.q)}
      dist == IF neg THEN <<>> ELSE TLCEval([s \in srcs |-> Dist(gin, w, s)])
  IN UNION {LET q == e.q[i]
                ds == IF neg THEN <<>> ELSE dist[q.s]
            IN    PlainViolations(g, e.a, ws, ds, q.s, q.d, q.ans)
               \cup (IF neg THEN {} ELSE FlatViolations(g, e.a, ws, ds, q.s, q.d, q.ans))
            : i \in 1..Len(e.q)}

Init == /\ c \in 1..Len(Cases)
        /\ l = 1
        /\ graphs = <<>>
        /\ bad = {}

Event(op) == l <= Len(Cases[c].ev) /\ Cases[c].ev[l].op = op

TraceGraph ==
  /\ Event("graph")
  /\ LET e == Cases[c].ev[l] IN
     /\ graphs' = Append(graphs, [g |-> e.g, gin |-> e.gin, plain |-> \A i \in EdgeIdxs(e.gin) : e.gin.E[i].sc = <<>>])
     /\ bad' = IF SameGraph(e.g, e.gin) THEN {} ELSE {"graph_differs_from_map"}

TraceQuery ==
  /\ Event("query")
  /\ LET e == Cases[c].ev[l]
         gr == graphs[e.k]
     IN /\ graphs' = graphs
        /\ bad' = (IF e.algo = "CHDijkstra" /\ NonNegative(e.a) /\ ~ValidHierarchy(gr.gin, Weights(gr.gin, e.a))
                   THEN {"GEN_invalid_hierarchy"} ELSE QueryViolations(gr, e))

TraceBroken == /\ Event("broken")
               /\ graphs' = graphs
               /\ bad' = {Cases[c].ev[l].what}

Next == /\ TraceGraph \/ TraceQuery \/ TraceBroken
        /\ l' = l + 1
        /\ c' = c
TraceSpec == Init /\ [][Next]_vars

Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
