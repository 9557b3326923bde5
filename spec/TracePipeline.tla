---------------------------- MODULE TracePipeline ----------------------------
(* Follows a balancing run of the real binary through its iterations. Metrics are in millionths.             *)
(*   start  n, fault, p (rule), a (weights: the edges' metrics, those of the edge table, the balanced one),      *)
(*          algo, norm (are metrics divided by their mean?), stat and table (values of the edges' metrics and     *)
(*          of those that travel in the edge table), bal0 (default of the balanced metric), ends, nodes, pairs,     *)
(*          collect (vehicles?)                                                                              *)
(*   iter   i, whole (does it have all its files?), cfg (is its config a copy?), nodes, ends, count, stat, table,   *)
(*          bal (the exported balanced metric, <<>> in iteration 0), g (the contracted map; its first edges are      *)
(*          the map's), W (workloads), V (vehicles), new (the balanced metric afterwards)                        *)
(*   end    res, kept (are all earlier files as they were?), stray, copies, and the balanced map                 *)
(*   again  res, kept: the same run once more                                                                 *)
EXTENDS BalanceRule, TLC, Json, IOUtils
B == INSTANCE Balance
P == INSTANCE Pipeline
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, next, cur, prev, bad
vars == <<c, l, next, cur, prev, bad>>
If(b, name) == IF b THEN {} ELSE {name}
E == Cases[c].ev[l]
St == Cases[c].ev[1]
M == Len(St.stat)          \* edges of the map

(* rows of numbers, in millionths and if need be divided by the columns' means *)
Given(rows) ==
  LET C(k) == [j \in 1..M |-> rows[j][k]]
      V(k) == IF St.norm THEN Scaled(C(k)) ELSE [j \in 1..M |-> C(k)[j] * U]
      D == IF M = 0 THEN 0 ELSE Len(rows[1])
      A == [k \in 1..D |-> V(k)]
  IN [j \in 1..M |-> [k \in 1..D |-> A[k][j]]]

NearRow(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k], 3 + Abs(y[k]) \div 200000)
NearRows(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : NearRow(x[k], y[k])

(* weights of iteration i in ten-thousandths *)
Weight(e, i) ==
  LET W(x) == B!Dot([k \in 1..Len(St.a) |-> IF k = Len(St.a) /\ i = 0 THEN 0 ELSE St.a[k]], x.m) IN
  [j \in 1..Len(e.g.E) |-> W(e.g.E[j]) \div 100]
Routes(e) ==
  LET og == B!OriginalOnly(e.g)
      w == Weight(e, e.i)
      ow == [j \in 1..Len(og.E) |-> w[j]]    \* originals come first
      srcs == {St.pairs[k].s : k \in 1..Len(St.pairs)}
      dist == [s \in srcs |-> B!Dist(og, ow, s)]
      wl == [j \in 1..Len(og.E) |-> e.W[j] * w[j]]
      sv == B!Served(St.pairs, dist)
      pl == [k \in 1..Len(St.pairs) |-> St.pairs[k].k * (IF k \in sv THEN dist[St.pairs[k].s][St.pairs[k].d] ELSE 0)]
      cnt == [k \in 1..Len(St.pairs) |-> St.pairs[k].k]
      slack == Sum(e.W) + M * Sum(cnt) + 1
  IN      If(B!Flow(og, St.pairs, dist, e.W), "workloads_are_no_routes")
     \cup If(St.algo = "Explorator" \/ Near(Sum(wl), Sum(pl), slack), "workloads_not_of_shortest_routes")
     \cup (IF ~St.collect THEN {} ELSE If(B!VehicleCounts(St.pairs, dist, e.V), "vehicle_counts") \cup If(B!VehiclesAreCounted(og, e.V, e.W), "workloads_differ_from_vehicles"))

Old(e) == [j \in 1..Len(e.g.E) |-> e.g.E[j].m[Len(St.a)]]
Padded(e) == [j \in 1..Len(e.g.E) |-> IF j <= M THEN e.W[j] ELSE 0]
Sane(e) == Len(e.g.E) >= M /\ \A j \in 1..Len(e.g.E) : B!IsShortcut(e.g, j) = (j > M)
Iteration(e) ==
  IF ~e.whole THEN {}
  ELSE      If(e.i = next, "iteration_skipped")
       \cup If(e.cfg, "config_of_iteration")
       \cup If(e.nodes = St.nodes /\ e.ends = St.ends /\ e.count = M, "map_changed")
       \cup If(NearRows(e.stat, Given(St.stat)), "static_metrics_changed")
       \cup If(NearRows(e.table, Given(St.table)), "edge_table_changed")
       \cup If(IF e.i = 0 THEN e.bal = <<>> ELSE NearRow(e.bal, cur), "balanced_metric_lost")
       \cup (IF \E j \in 1..Len(e.W) : e.W[j] < 0 THEN {"workload_missing"}
             ELSE IF ~Sane(e) THEN {"contracted_map_is_odd"}
             ELSE   Routes(e)
               \cup (IF AllZero(e.W) THEN {"zero_workloads_accepted"}
                     ELSE   If(~MustFail(St.p, e.i, Old(e), Padded(e)), "zero_metric_accepted")
                       \cup If(Agrees(St.p, e.i, Old(e), Padded(e), e.new, 1..M), "not_the_configured_rule")))
Ending(e) ==
  IF e.res \notin {"ok", "err"} THEN {e.res}
  ELSE      If(e.kept, "existing_file_changed") \cup If(~e.stray, "file_outside_of_results")
       \cup If(next <= P!Completed(St.fault, St.n), "iteration_despite_fault")
       \cup (IF e.res = "err" THEN If(~P!Succeeds(St.fault, St.n) \/ (St.p.min < 0 /\ St.p.throw), "failed_without_reason")
             ELSE      If(P!Succeeds(St.fault, St.n), "success_despite_fault")
                  \cup If(next = St.n, "iterations_missing")
                  \cup If(e.copies, "inputs_not_kept_with_results")
                  \cup If(e.hasbal, "balanced_map_missing")
                  \cup (IF ~e.hasbal \/ next # St.n THEN {}
                        ELSE      If(e.nodes = St.nodes /\ e.ends = St.ends, "map_changed")
                             \cup If(NearRows(e.stat, Given(St.stat)), "static_metrics_changed")
                             \cup If(NearRows(e.table, Given(St.table)), "edge_table_changed")
                             \cup If(NearRow(e.bal, prev), "balanced_map_is_not_the_last")))
Again(e) == IF e.res \notin {"ok", "err"} THEN {e.res} ELSE If(e.kept, "existing_file_changed")

Init == c \in 1..Len(Cases) /\ l = 1 /\ next = 0 /\ cur = <<>> /\ prev = <<>> /\ bad = {}
Start == /\ E.op = "start" /\ bad' = If(St.fault \in P!Faults(St.n), "GEN_fault")
         /\ cur' = [k \in 1..M |-> IF St.norm THEN U ELSE St.bal0 * U] /\ prev' = cur' /\ next' = next
Iter == /\ E.op = "iter" /\ bad' = Iteration(E)
        /\ IF E.whole THEN next' = E.i + 1 /\ prev' = cur /\ cur' = E.new ELSE UNCHANGED <<next, prev, cur>>
End == E.op = "end" /\ bad' = Ending(E) /\ UNCHANGED <<next, cur, prev>>
More == E.op = "again" /\ bad' = Again(E) /\ UNCHANGED <<next, cur, prev>>
Next == l <= Len(Cases[c].ev) /\ (Start \/ Iter \/ End \/ More) /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
