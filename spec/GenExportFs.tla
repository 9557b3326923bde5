----------------------------- MODULE GenExportFs -----------------------------
(* All histories of K exports: which exporter writes to which file name. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS Kinds, Names, K
VARIABLE done
Acts == [kind : Kinds, name : Names]
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE, SetToSeq({[h |-> h] : h \in UNION {[1..k -> Acts] : k \in 1..K}}))
Spec == Init /\ [][Next]_done
=============================================================================
