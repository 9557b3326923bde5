---------------------------- MODULE GenConstructor ----------------------------
(* Every combination of given and omitted options, every fault.              *)
EXTENDS Constructor, TLC, Json, IOUtils, SequencesExt
VARIABLE done
Opts == [dim : {1, 3}, acc : {<<>>, <<1000>>, <<500000000>>}, ratio : {<<>>, <<50000>>, <<99500>>}, threads : {<<>>, <<1>>, <<9>>}, ids : BOOLEAN, ext : BOOLEAN]
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUTFILE, <<[cfgs |-> SetToSeq(Opts), faults |-> SetToSeq(Faults)]>>)
Spec == Init /\ [][Next]_done
=============================================================================
