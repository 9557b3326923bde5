---------------------------- MODULE TraceBalance ----------------------------
(* Judges runs of the binary evaluating route-pairs with several threads.      *)
EXTENDS Balance, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad
vars == <<c, l, bad>>

If(b, name) == IF b THEN {} ELSE {name}

Allowed(e, x) == \E i \in 1..Len(e.allowed) :
                   /\ e.allowed[i].s = x.s /\ e.allowed[i].d = x.d
                   /\ \E j \in 1..Len(e.allowed[i].walks) : e.allowed[i].walks[j] = x.walk

OkViolations(e) ==
  LET g == e.g
      w == Weights(g, e.a)
      og == OriginalOnly(g)
      ow == Weights(og, e.a)
      srcs == {e.pairs[i].s : i \in 1..Len(e.pairs)}
      dist == TLCEval([s \in srcs |-> Dist(og, ow, s)])
      explo == e.algo = "Explorator"
      whole == \A i \in 1..Len(e.W) : e.W[i] >= 0
  IN IF ~whole THEN {"workload_missing"} ELSE
          If(Flow(g, e.pairs, dist, e.W), "workloads_are_no_routes")
     \cup If(explo \/ TotalCosts(g, w, e.pairs, dist, e.W), "workloads_not_of_shortest_routes")
     \cup If(\A i \in EdgeIdxs(g) : IsShortcut(g, i) => e.W[i] = 0, "shortcut_loaded")
     \cup (IF ~e.collect THEN {}
           ELSE IF ~e.hasveh THEN {"vehicles_missing"}
           ELSE      If(VehicleCounts(e.pairs, dist, e.V), "vehicle_counts")
                \cup (IF \E x \in 1..Len(e.V) : ~IsWalk(g, e.V[x]) THEN {"vehicle_is_no_walk"}
                      ELSE      If(explo \/ \A x \in 1..Len(e.V) : e.V[x].s \notin srcs \/ WalkWeight(g, w, e.V[x].walk) = dist[e.V[x].s][e.V[x].d], "vehicle_not_optimal")
                           \cup If(~explo \/ \A x \in 1..Len(e.V) : Allowed(e, e.V[x]), "vehicle_not_explored")
                           \cup If(VehiclesAreCounted(g, e.V, e.W), "workloads_differ_from_vehicles")))

RunViolations(e) ==
  IF e.res \notin {"ok", "err"} THEN {e.res}
  ELSE IF e.unknown THEN If(e.res = "err", "failure_not_reported") \cup If(~e.hasW, "partial_counts_written")
  ELSE IF e.res = "err" THEN {"failed_without_reason"}
  ELSE IF ~e.hasW THEN {"workloads_not_written"}
  ELSE OkViolations(e)

Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Cases[c].ev)
        /\ bad' = RunViolations(Cases[c].ev[l])
        /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
