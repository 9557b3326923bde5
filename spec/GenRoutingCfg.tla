--------------------------- MODULE GenRoutingCfg ---------------------------
(* All lists of up to K entries over the ids, with and without weight and tolerance. *)
EXTENDS RoutingConfig, TLC, Json, IOUtils, SequencesExt
CONSTANTS Ids, K, As, Ss
VARIABLE done
Es == [id : Ids, a : As, s : Ss]
Lists == {x \in UNION {[1..k -> Es] : k \in 0..K} : \A i, j \in 1..Len(x) : x[i].id = x[j].id => i = j}
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE, SetToSeq({[e |-> x] : x \in Lists}))
Spec == Init /\ [][Next]_done
=============================================================================
