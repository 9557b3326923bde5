------------------------------ MODULE Balancing ------------------------------
(***************************************************************************)
(* Iterations of the balancer on N edges: in each one, some workloads are     *)
(* counted and the metric follows the rule. The initial metric is one         *)
(* everywhere.                                                                *)
(***************************************************************************)
EXTENDS BalanceRule, TLC
CONSTANTS N, MaxIter, MaxW, Corrections, Mins
VARIABLES p, iter, metric, raw, sums, failed
vars == <<p, iter, metric, raw, sums, failed>>

Params == [avg : {TRUE}, c : {0}, min : Mins \cup {0 - 1}, throw : BOOLEAN]
          \cup [avg : {FALSE}, c : Corrections, min : Mins \cup {0 - 1}, throw : BOOLEAN]
Workloads == [1..N -> 0..MaxW]

Init == /\ p \in Params /\ iter = 0 /\ failed = FALSE
        /\ metric = [i \in 1..N |-> U] /\ raw = metric
        /\ sums = [i \in 1..N |-> 0]

Step(w) ==
  /\ iter < MaxIter /\ ~failed /\ p' = p
  /\ IF MayFail(p, iter, metric, w)
     THEN failed' = TRUE /\ UNCHANGED <<iter, metric, raw, sums>>
     ELSE /\ raw' = Raw(p, iter, metric, w)
          /\ metric' = Scaled(raw')
          /\ sums' = [i \in 1..N |-> sums[i] + Normalized(w)[i]]
          /\ iter' = iter + 1 /\ failed' = FALSE
Next == \E w \in Workloads : Step(w)
Spec == Init /\ [][Next]_vars

(* the metric has mean one *)
MeanOne == Near(Sum(metric), N * U, 2 * N)
(* no value falls below the minimum before it is divided by the mean *)
BoundedBelow == p.min >= 0 /\ iter > 0 => \A i \in 1..N : raw[i] >= p.min
(* order of the edges by the unscaled values is kept *)
RatiosKept == \A i, j \in 1..N : raw[i] < raw[j] => metric[i] <= metric[j]
(* a running average without minimum is the average of all normalized workloads, whatever the initial values *)
AverageOfAll == p.avg /\ p.min < 0 /\ iter > 0 => \A i \in 1..N : Near(metric[i] * iter, sums[i], 8 * MaxIter)
(* a running average with non-negative workloads never gets negative, nor does a step not beyond its target *)
NoNegative == p.avg \/ p.c \in 0..1000 => \A i \in 1..N : metric[i] >= 0
(* without minimum, positive values are guaranteed or refused *)
PositiveOrRefused == p.min < 0 /\ p.throw /\ ~failed => \A i \in 1..N : metric[i] > 0
=============================================================================
