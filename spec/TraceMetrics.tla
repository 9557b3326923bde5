---------------------------- MODULE TraceMetrics ----------------------------
(* Replays a config's generating-section entry by entry and judges the graph that was built (C07), normalizing and exports (C08). *)
EXTENDS Metrics, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, t, bad
vars == <<c, l, t, bad>>
C == Cases[c]
Tol == 3
(* what the library is compiled for *)
Limit == IF "max" \in DOMAIN C THEN C.max ELSE MaxDim

Arcs(k) == [e \in 1..Len(k.edges) |-> Angle(k.pos[k.edges[e].s], k.pos[k.edges[e].d])]
Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = {}
        /\ t = Parsed(Cases[c].cols, Cases[c].lines, Cases[c].eids, Arcs(Cases[c]))
Generate == l <= Len(C.prog) /\ t' = TLCEval(Apply(t, C.prog[l])) /\ bad' = {}

(* an observed value is given divided by each power -1, 0, 1 of the irrational unit *)
Obs(o, h) == o[h + 2]
ColumnFaults(tt, got) ==
  IF [k \in 1..Len(tt.cols) |-> tt.cols[k].id] # got.ids THEN {"wrong_metric_ids"} ELSE
       (IF [k \in 1..Len(tt.cols) |-> tt.cols[k].unit] # got.units THEN {"wrong_units"} ELSE {})
  \cup UNION {IF \A e \in 1..Len(tt.arcs) : LET q == tt.cols[k].v[e] IN Near(q, Obs(got.v[e][k], q.h), Tol)
              THEN {} ELSE {"wrong_value"} : k \in 1..Len(tt.cols)}
IdFaults(tt, got) ==
  IF tt.eids = <<>> THEN (IF got.eids = <<>> THEN {} ELSE {"unexpected_edge_ids"})
  ELSE IF \E e \in 1..Len(tt.eids) : tt.eids[e] = -1
  THEN (IF Len(got.eids) = Len(tt.arcs) /\ {got.eids[e] : e \in 1..Len(got.eids)} = 0..(Len(tt.arcs) - 1) THEN {} ELSE {"generated_ids_do_not_number_edges"})
  ELSE (IF got.eids = tt.eids THEN {} ELSE {"wrong_edge_ids"})
MeanFaults(tt, got) ==
  IF ~C.norm THEN (IF got.means = <<>> THEN {} ELSE {"unexpected_means"})
  ELSE IF Len(got.means) = Len(tt.cols) /\ \A k \in 1..Len(tt.cols) : LET q == Mean(tt.cols[k]) IN Near(q, Obs(got.means[k], q.h), Tol)
       THEN {} ELSE {"wrong_means"}
(* got.exports: <<[denorm, v], ...>>, v[e][k] *)
ExportFaults(tt, got) ==
  UNION {LET x == got.exports[j]
             shown == IF C.norm /\ ~x.denorm THEN Normalized(tt) ELSE tt
         IN IF ~x.ok THEN {"export_refused"} ELSE
            IF Len(x.v) # Len(tt.arcs) THEN {"exported_rows_wrong"} ELSE
            IF \A e \in 1..Len(tt.arcs) : \A k \in 1..Len(tt.cols) : LET q == shown.cols[k].v[e] IN Near(q, Obs(x.v[e][k], q.h), Tol)
            THEN {} ELSE {IF x.denorm THEN "wrong_denormalized_export" ELSE "wrong_export"} : j \in 1..Len(got.exports)}

Sane == /\ \A e \in 1..Len(t.arcs) : t.arcs[e] >= 0
        /\ \A k \in 1..Len(t.cols) : \A e \in 1..Len(t.arcs) : t.cols[k].v[e].h \in -1..1
Possible == t.ok /\ ("nmeta" \in DOMAIN C => NodeMeta({"node-id", "lat", "lon"}, C.nmeta))
            /\ Grown(Parsed(C.cols, C.lines, C.eids, Arcs(C)), C.prog) <= Limit
            /\ (C.norm => Len(t.arcs) > 0 /\ \A k \in 1..Len(t.cols) : Mean(t.cols[k]).n > 0)
Finish ==
  /\ l = Len(C.prog) + 1 /\ t' = t
  /\ bad' = CASE C.got.failed # "" -> {C.got.failed}
              [] ~Sane -> {"GEN_outside"}
              [] ~Possible -> (IF C.got.ok THEN {"impossible_config_accepted"} ELSE {})
              [] ~C.got.ok -> {"possible_config_refused"}
              [] Len(C.got.v) # Len(t.arcs) -> {"wrong_edges"}
              [] OTHER -> LET final == IF C.norm THEN Normalized(t) ELSE t
                          IN ColumnFaults(final, C.got) \cup IdFaults(t, C.got) \cup MeanFaults(t, C.got) \cup ExportFaults(t, C.got)
Next == (Generate \/ Finish) /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
