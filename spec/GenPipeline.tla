---------------------------- MODULE GenPipeline ----------------------------
(* Every fault at every place of runs with up to MaxN iterations.           *)
EXTENDS Pipeline, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxN
VARIABLE done
All == UNION {{[n |-> n, fault |-> f] : f \in {x \in Faults(n) : x.what # "none" /\ (x.at < n)}} : n \in 1..MaxN}
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUTFILE, <<[all |-> SetToSeq(All)]>>)
Spec == Init /\ [][Next]_done
=============================================================================
