--------------------------- MODULE TraceBalancing ---------------------------
(* Judges recorded updates of the balanced metric, each one relative to the    *)
(* graph before it.                                                            *)
EXTENDS BalanceRule, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad
vars == <<c, l, bad>>
If(b, name) == IF b THEN {} ELSE {name}

Violations(e) ==
  LET p == e.p
      n == Len(e.w)
      same == e.old = e.new /\ e.oldmeans = e.newmeans
  IN
  IF e.res \notin {"ok", "err"} THEN {e.res}
  ELSE IF Len(e.new) # Len(e.old) \/ Len(e.old) # n THEN {"number_of_edges"}
  ELSE (If(e.rest = e.newrest, "something_else_changed")
   \cup IF ~e.known THEN If(e.res = "err", "unknown_metric_accepted") \cup If(same, "changed_despite_error")
        ELSE IF e.res = "err" THEN If(MayFail(p, e.iter, e.old, e.w), "refused_without_reason") \cup If(same, "changed_despite_error")
        ELSE IF MustFail(p, e.iter, e.old, e.w) THEN {IF AllZero(e.w) THEN "zero_workloads_accepted" ELSE "zero_metric_accepted"}
        ELSE LET y == Raw(p, e.iter, e.old, e.w)
                 S == Sum(y)
                 t == Fuzz(n, S)
             IN IF S <= n * 100 THEN {}  (* rounding dominates *)
                ELSE      If(Agrees(p, e.iter, e.old, e.w, e.new, 1..n), "not_the_configured_rule")
                     \cup If(Near(Sum(e.new), n * U, 2 * n), "mean_is_not_one")
                     \cup If(p.min < 0 \/ \A i \in 1..n : e.new[i] >= MulDiv(p.min, n * U, S) - t, "below_minimum")
                     \cup If(\A k \in 1..Len(e.oldmeans) : k = e.m \/ e.oldmeans[k] = e.newmeans[k], "other_mean_changed")
                     \cup If(~e.keeps \/ Near(e.newmean, S \div n, Tol), "mean_not_remembered"))

Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = {}
Next == /\ l <= Len(Cases[c].ev)
        /\ bad' = Violations(Cases[c].ev[l])
        /\ l' = l + 1 /\ c' = c
TraceSpec == Init /\ [][Next]_vars
Conforms == bad = {} \/ ~PrintT("VIOL|" \o ToString(c) \o "|" \o ToString(l - 1) \o "|" \o ToString(bad))
=============================================================================
