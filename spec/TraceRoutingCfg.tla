--------------------------- MODULE TraceRoutingCfg ---------------------------
(***************************************************************************)
(* Validates recorded loadings of routing-sections, and routing with them.  *)
(*   [op |-> "graph", ids, g, gin]  a graph with the metrics ids            *)
(*   [op |-> "load", c, ok, alphas, scales, algo]  what was made of c        *)
(*   [op |-> "route", q, ok]    queries answered under the loaded section    *)
(***************************************************************************)
EXTENDS RoutingConfig, Routing, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, gr, cfg, bad
vars == <<c, l, gr, cfg, bad>>

If(b, name) == IF b THEN {} ELSE {name}
NoGraph == [none |-> TRUE]

LoadViolations(e) ==
  LET ids == gr.ids IN
  IF Valid(e.c, ids)
  THEN IF ~Unambiguous(e.c) THEN {}
       ELSE IF ~e.ok THEN {"valid_config_rejected"}
       ELSE      If(Len(e.alphas) = Len(ids) /\ Len(e.scales) = Len(ids), "wrong_dimension")
            \cup If(e.alphas = Alphas(e.c, ids), "wrong_weights")
            \cup If(e.scales = Scales(e.c, ids), "wrong_tolerances")
            \cup If(e.algo = e.c.algo, "wrong_algorithm")
  ELSE If(~e.ok, "invalid_config_accepted")

EdgeKeys(g) == {[s |-> g.E[i].s, d |-> g.E[i].d, m |-> g.E[i].m] : i \in EdgeIdxs(g)}

RouteViolations(e) ==
  LET ids == gr.ids IN
  IF ~Valid(cfg, ids) THEN If(~e.ok, "invalid_config_accepted")
  ELSE IF ~Unambiguous(cfg) THEN {}
  ELSE IF ~e.ok THEN {"valid_config_rejected"}
  ELSE LET a == Alphas(cfg, ids)
           w == Weights(gr.gin, a)
           ws == Weights(gr.g, a)
           dist == TLCEval([s \in {e.q[i].s : i \in 1..Len(e.q)} |-> Dist(gr.gin, w, s)])
       IN UNION {PlainViolations(gr.g, a, ws, dist[e.q[i].s], e.q[i].s, e.q[i].d, e.q[i].ans) : i \in 1..Len(e.q)}

Init == c \in 1..Len(Cases) /\ l = 1 /\ gr = NoGraph /\ cfg = NoGraph /\ bad = {}
Event(op) == l <= Len(Cases[c].ev) /\ Cases[c].ev[l].op = op

Graph == /\ Event("graph")
         /\ gr' = Cases[c].ev[l]
         /\ cfg' = NoGraph
         /\ bad' = If(EdgeKeys(gr'.g) = EdgeKeys(gr'.gin), "graph_differs_from_map")
Load == /\ Event("load")
        /\ cfg' = Cases[c].ev[l].c
        /\ gr' = gr
        /\ bad' = LoadViolations(Cases[c].ev[l])
Route == /\ Event("route")
         /\ UNCHANGED <<gr, cfg>>
         /\ bad' = RouteViolations(Cases[c].ev[l])
Broken == /\ Event("broken") /\ UNCHANGED <<gr, cfg>> /\ bad' = {Cases[c].ev[l].what}
Next == (Graph \/ Load \/ Route \/ Broken) /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
