----------------------------- MODULE GenBuilding -----------------------------
(* Enumerates all edge-lists of length 1..MaxE over the nodes 1..N with metrics M. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, M, MaxE
Edges == (1..N) \X (1..N) \X M
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE, SetToSeq(UNION {[1..n -> Edges] : n \in 1..MaxE}))
Spec == Init /\ [][Next]_done
=============================================================================
