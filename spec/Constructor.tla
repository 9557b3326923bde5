------------------------------ MODULE Constructor ------------------------------
(***************************************************************************)
(* The binary that wraps the external constructor of contraction-hierarchies: *)
(* it configures the constructor for the map's number of metrics, builds it   *)
(* and lets it contract a map, all as its config says (C22).                  *)
(* A config is a record [dim, acc, ratio, threads, ids, ext, text, write];     *)
(* an optional entry is a sequence of at most one value. Accuracies are in     *)
(* billionths, ratios in thousandths of a percent.                           *)
(* A fault is a record [where, kind]: in the config or in one of the steps.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Steps == <<"configure", "make", "contract">>
StepFaults == {"fails", "killed", "absent"}
ConfigFaults == {"file-absent", "other-extension", "no-yaml", "no-section", "no-map", "no-target", "no-dimension", "no-ids", "no-ext",
                 "unknown-key", "dimension-is-text", "dimension-is-negative", "accuracy-is-text", "ids-is-text", "map-twice"}
NoFault == [where |-> "none", kind |-> "none"]
Faults == {NoFault} \cup {[where |-> "config", kind |-> k] : k \in ConfigFaults}
          \cup {[where |-> Steps[k], kind |-> f] : k \in 1..3, f \in StepFaults}

Or(opt, default) == IF opt = <<>> THEN default ELSE opt[1]
(* what a step is called with *)
Wanted(cfg, step) ==
  CASE step = "configure" -> [step |-> step, dim |-> cfg.dim, acc |-> Or(cfg.acc, 100000)]
    [] step = "make"      -> [step |-> step]
    [] step = "contract"  -> [step |-> step, text |-> cfg.text, write |-> cfg.write, ratio |-> Or(cfg.ratio, 99800), threads |-> Or(cfg.threads, 4),
                              ids |-> cfg.ids, ext |-> cfg.ext]
(* steps that are begun: a step that can't be started (absent) leaves no call *)
Begun(f) == CASE f.where = "none" -> 3
              [] f.where = "config" -> 0
              [] OTHER -> LET k == CHOOSE i \in 1..3 : Steps[i] = f.where IN IF f.kind = "absent" THEN k - 1 ELSE k
Calls(cfg, f) == [k \in 1..Begun(f) |-> Wanted(cfg, Steps[k])]
Succeeds(f) == f = NoFault
=============================================================================
