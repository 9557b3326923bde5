--------------------------- MODULE PipelineDesign ---------------------------
(* The run as a machine over its stages; the balanced metric is represented by its version: the number of *)
(* updates it went through.                                                                              *)
EXTENDS Pipeline
CONSTANTS MaxN
VARIABLES n, fault, it, stage, cur, art, balanced, st
vars == <<n, fault, it, stage, cur, art, balanced, st>>
Nothing == [graph |-> -1, ch |-> -1, routed |-> -1, ignoring |-> FALSE, stats |-> -1]
Init == /\ n \in 1..MaxN /\ fault \in Faults(n) /\ it = 0 /\ stage = 1 /\ cur = 0 /\ art = <<>> /\ balanced = -1
        /\ st = "starting"
Start == /\ st = "starting" /\ st' = (IF fault.what \in Early THEN "failed" ELSE "working") /\ UNCHANGED <<n, fault, it, stage, cur, art, balanced>>
Hit == /\ StageOf(fault.what) = Stages[stage]
       /\ \/ (fault.what \in AtZero /\ it = 0)
          \/ (fault.what \in AtOne /\ it = 1)
          \/ (fault.what \in AtLast /\ it = n - 1)
          \/ (fault.what \in Within /\ it = fault.at)
Do(s) ==
  /\ art' = (IF s = "prepare" THEN Append(art, Nothing)
             ELSE [art EXCEPT ![it + 1] = CASE s = "export" -> [@ EXCEPT !.graph = cur]
                                            [] s = "contract" -> [@ EXCEPT !.ch = art[it + 1].graph]
                                            [] s = "route" -> [@ EXCEPT !.routed = art[it + 1].ch, !.ignoring = (it = 0)]
                                            [] s = "stats" -> [@ EXCEPT !.stats = cur]
                                            [] OTHER -> @])
  /\ cur' = (IF s = "update" THEN cur + 1 ELSE cur)
  /\ balanced' = (IF s = "prepare" /\ it = n - 1 THEN cur ELSE balanced)
Step == /\ st = "working" /\ it < n /\ ~Hit /\ Do(Stages[stage])
        /\ IF stage = Len(Stages) THEN it' = it + 1 /\ stage' = 1 ELSE it' = it /\ stage' = stage + 1
        /\ UNCHANGED <<n, fault, st>>
Fail == st = "working" /\ it < n /\ Hit /\ st' = "failed" /\ UNCHANGED <<n, fault, it, stage, cur, art, balanced>>
End == st = "working" /\ it = n /\ st' = "ok" /\ UNCHANGED <<n, fault, it, stage, cur, art, balanced>>
Next == Start \/ Step \/ Fail \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == st \in {"ok", "failed"}
Whole(i) == Len(art) > i /\ art[i + 1].stats # -1
CompletedAreAsSaid == Over => {i \in 0..(n - 1) : Whole(i)} = 0..(Completed(fault, n) - 1)
EndsAsSaid == Over => (st = "ok") = Succeeds(fault, n)
(* every iteration works with the metric of the one before it *)
Chained == \A i \in 0..(n - 1) : Whole(i) =>
             /\ art[i + 1].graph = i /\ art[i + 1].routed = i /\ art[i + 1].stats = i + 1
             /\ art[i + 1].ignoring = (i = 0)
BalancedIsTheLast == st = "ok" => balanced = n - 1
Ends == <>Over
=============================================================================
