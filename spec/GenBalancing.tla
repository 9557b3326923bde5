---------------------------- MODULE GenBalancing ----------------------------
(* Parameters and histories of workloads for the implementation.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, K, MaxW, Corrections, Mins
VARIABLE done
Params == [avg : {TRUE}, c : {0}, min : Mins \cup {0 - 1}, throw : BOOLEAN]
          \cup [avg : {FALSE}, c : Corrections, min : Mins \cup {0 - 1}, throw : BOOLEAN]
Workloads == [1..N -> 0..MaxW]
Histories == [1..K -> Workloads]
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE, SetToSeq({[p |-> p, w |-> h] : p \in Params, h \in Histories}))
Spec == Init /\ [][Next]_done
=============================================================================
