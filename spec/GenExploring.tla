--------------------------- MODULE GenExploring ---------------------------
(* All sets of up to K cost-vectors: the parallel roads from one place to another. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS Dim, Top, K
VARIABLE done
Vs == [1..Dim -> 1..Top]
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE, SetToSeq({[v |-> SetToSeq(x)] : x \in UNION {kSubset(k, Vs) : k \in 1..K}}))
Spec == Init /\ [][Next]_done
=============================================================================
