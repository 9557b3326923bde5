------------------------------- MODULE GenOsm -------------------------------
(* Each road, spelling, vehicle and direction.                                 *)
EXTENDS OsmImport, Json, IOUtils, SequencesExt
VARIABLE done
Vehicles == {"Car", "Bicycle", "Pedestrian"}
Single == {[hw |-> h, ow |-> o, ms |-> "", vehicle |-> v, picky |-> p] :
             h \in DOMAIN Roads \cup DOMAIN Alias \cup {"", "bus_stop", "proposed", "razed", "spaceway", "no", "none", "abandoned", "disused", "dismantled", "demolished", "removed",
                    "planned", "construction", "under construction", "platform", "never_built", "unused", "street_lamp"}, o \in {"", "yes", "-1"}, v \in Vehicles, p \in BOOLEAN}
Ones == {[hw |-> "tertiary", ow |-> o, ms |-> "", vehicle |-> v, picky |-> TRUE] : o \in Forwards \cup Backwards \cup BothWays, v \in {"Car", "Bicycle"}}
Speeds == {[hw |-> h, ow |-> "", ms |-> m, vehicle |-> "Bicycle", picky |-> FALSE] :
             h \in {"primary", "residential", "path"}, m \in DOMAIN Words \cup DOMAIN Miles \cup DOMAIN Lists \cup Vague}
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.OUTFILE, SetToSeq({x \in Single \cup Ones \cup Speeds : ~Unspecified([nodes |-> <<1, 2>>, hw |-> x.hw], x)}))
Spec == Init /\ [][Next]_done
=============================================================================
