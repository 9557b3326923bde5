----------------------------- MODULE GenRouting -----------------------------
(***************************************************************************)
(* Enumerates the complete space of small simple graphs: every assignment   *)
(* of a weight out of Ws (0 = no edge) to every ordered pair of distinct    *)
(* nodes.  Written as JSON for replay in the implementation.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS N, Ws, Loops
Pairs == {<<u, v>> \in (1..N) \X (1..N) : Loops \/ u # v}
VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE,
              SetToSeq({[n |-> N, e |-> SetToSeq({<<p[1], p[2], f[p]>> : p \in {x \in Pairs : f[x] # 0}})] : f \in [Pairs -> Ws]}))
Spec == Init /\ [][Next]_done
=============================================================================
