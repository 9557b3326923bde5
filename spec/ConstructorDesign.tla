--------------------------- MODULE ConstructorDesign ---------------------------
(* The wrapper as a machine beside a constructor that can be built and asked. *)
EXTENDS Constructor
CONSTANTS MaxDim
VARIABLES cfg, fault, k, built, calls, out, st
vars == <<cfg, fault, k, built, calls, out, st>>
Cfgs == [dim : 1..MaxDim, acc : {<<>>, <<1000>>}, ratio : {<<>>, <<50000>>}, threads : {<<>>, <<1>>, <<9>>}, ids : BOOLEAN, ext : BOOLEAN, text : {"g"}, write : {"c"}]
Init == /\ cfg \in Cfgs /\ fault \in Faults /\ k = 1 /\ built = 0 /\ calls = <<>> /\ out = <<>> /\ st = "starting"
Read == /\ st = "starting" /\ st' = (IF fault.where = "config" THEN "failed" ELSE "working") /\ UNCHANGED <<cfg, fault, k, built, calls, out>>
Step == /\ st = "working" /\ k <= 3 /\ fault.where # Steps[k]
        /\ calls' = Append(calls, Wanted(cfg, Steps[k]))
        /\ built' = (IF Steps[k] = "make" THEN calls[1].dim ELSE built)
        /\ out' = (IF Steps[k] = "contract" THEN <<built>> ELSE out)
        /\ k' = k + 1 /\ UNCHANGED <<cfg, fault, st>>
Fail == /\ st = "working" /\ k <= 3 /\ fault.where = Steps[k]
        /\ calls' = (IF fault.kind = "absent" THEN calls ELSE Append(calls, Wanted(cfg, Steps[k])))
        /\ st' = "failed" /\ UNCHANGED <<cfg, fault, k, built, out>>
End == st = "working" /\ k = 4 /\ st' = "ok" /\ UNCHANGED <<cfg, fault, k, built, calls, out>>
Next == Read \/ Step \/ Fail \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Over == st \in {"ok", "failed"}
CallsAreAsSaid == Over => calls = Calls(cfg, fault)
EndsAsSaid == Over => (st = "ok") = Succeeds(fault)
(* what is contracted was built for this number of metrics *)
Fits == out # <<>> => out = <<cfg.dim>>
SuccessMeansContracted == st = "ok" => out # <<>>
Ends == <>Over
=============================================================================
