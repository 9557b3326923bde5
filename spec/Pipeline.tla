------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A balancing run (--balancing): which iterations are completed, in which    *)
(* order, with which version of the balanced metric, and what is left behind   *)
(* when a step fails (C21).                                                  *)
(* N iterations (one more than metric-updates) go through the stages below.   *)
(* A fault is a record [what, at]: something is wrong with `what`, in          *)
(* iteration `at` for those that happen in every iteration.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Stages == <<"prepare", "export", "build", "contract", "read", "pairs", "route", "update", "stats">>
(* what ends a run before its first iteration, within a certain one, or in any one *)
Early == {"no-writing", "no-balancing", "no-routing", "unknown-routing-metric", "no-map", "config-absent"}
AtZero == {"iter0cfg", "iter0bad", "pairs-absent", "pairs-malformed", "pairs-unknown", "unknown-metric", "no-externals", "no-load", "pairs-unset"}
AtOne == {"itericfg", "iteribad"}
AtLast == {"target-column"}
Within == {"cmake", "make", "contract-fails", "contract-garbage", "contract-nothing"}
NoFault == [what |-> "none", at |-> 0]
Faults(n) == {NoFault} \cup {[what |-> w, at |-> 0] : w \in Early \cup AtZero \cup AtOne \cup AtLast} \cup {[what |-> w, at |-> k] : w \in Within, k \in 0..n}

(* the stage in which a fault shows *)
StageOf(w) == CASE w \in {"iter0cfg", "itericfg", "target-column"} -> "prepare" [] w \in {"iter0bad", "iteribad"} -> "export"
                [] w \in {"no-externals", "cmake", "make"} -> "build" [] w = "contract-fails" -> "contract"
                [] w \in {"contract-garbage", "contract-nothing"} -> "read"
                [] w \in {"pairs-absent", "pairs-malformed", "pairs-unset"} -> "pairs" [] w = "pairs-unknown" -> "route"
                [] w \in {"unknown-metric", "no-load"} -> "update" [] OTHER -> "start"
(* how many iterations are completed *)
Completed(f, n) == IF f.what = "none" THEN n
                   ELSE IF f.what \in Early \cup AtZero THEN 0
                   ELSE IF f.what \in AtLast THEN n - 1
                   ELSE IF f.what \in AtOne THEN IF n = 1 THEN n ELSE 1
                   ELSE IF f.at >= n THEN n ELSE f.at
Succeeds(f, n) == Completed(f, n) = n /\ f.what \notin Early
=============================================================================
