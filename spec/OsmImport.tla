------------------------------ MODULE OsmImport ------------------------------
(***************************************************************************)
(* What an OSM file means for a vehicle. A way is a record                    *)
(*   nodes  the nodes it passes (numbers)                                     *)
(*   hw, ow, ms  values of its tags highway, oneway and maxspeed ("" if it    *)
(*          has no such tag), trimmed and in lower case                       *)
(* A file is a set of nodes with positions and a sequence of ways.            *)
(* The table of roads is the one of the documentation of StreetCategory:      *)
(* whom a road is for ("rough": usable, but only by those who aren't picky),  *)
(* its default speed in km/h, and its number of lanes. "?" marks entries in   *)
(* which documentation and implementation differ; nothing is said on them.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

R(c, b, f, v, n) == [car |-> c, bike |-> b, foot |-> f, speed |-> v, lanes |-> n]
Roads ==
  [motorway |-> R("yes", "no", "no", 130, 3), motorway_link |-> R("yes", "no", "no", 50, 1),
   trunk |-> R("yes", "no", "no", 100, 2), trunk_link |-> R("yes", "no", "no", 50, 1),
   primary |-> R("yes", "rough", "no", 100, 2), primary_link |-> R("yes", "rough", "no", 30, 1),
   secondary |-> R("yes", "rough", "no", 70, 1), secondary_link |-> R("yes", "rough", "no", 30, 1),
   tertiary |-> R("yes", "yes", "no", 70, 1), tertiary_link |-> R("yes", "yes", "no", 30, 1),
   unclassified |-> R("yes", "yes", "no", 50, 1), residential |-> R("yes", "yes", "yes", 50, 1),
   living_street |-> R("yes", "yes", "yes", 15, 1), service |-> R("?", "yes", "yes", 20, 1),
   track |-> R("rough", "rough", "yes", 30, 1), road |-> R("?", "?", "?", 50, 1),
   cycleway |-> R("no", "yes", "no", 25, 1), pedestrian |-> R("no", "rough", "yes", 5, 1),
   path |-> R("no", "rough", "yes", 15, 1)]

(* other spellings of the tag's values *)
Alias == ("footway" :> "pedestrian") @@ ("steps" :> "pedestrian") @@ ("sidewalk" :> "pedestrian")
         @@ ("footpath" :> "pedestrian") @@ ("stairs" :> "pedestrian") @@ ("unclasified" :> "unclassified") @@ ("sevice" :> "service")
         @@ ("service2" :> "service") @@ ("swervice" :> "service") @@ ("bridleway" :> "cycleway") @@ ("mini_roundabout" :> "residential")
IsRoad(hw) == hw \in DOMAIN Roads \/ hw \in DOMAIN Alias
Class(hw) == Roads[IF hw \in DOMAIN Roads THEN hw ELSE Alias[hw]]

Suits(class, vehicle) == CASE vehicle = "Car" -> class.car [] vehicle = "Bicycle" -> class.bike [] vehicle = "Pedestrian" -> class.foot
Usable(w, cfg) ==
  /\ Len(w.nodes) >= 2 /\ IsRoad(w.hw)
  /\ LET u == Suits(Class(w.hw), cfg.vehicle) IN u = "yes" \/ (u = "rough" /\ ~cfg.picky)
Unspecified(w, cfg) == Len(w.nodes) >= 2 /\ IsRoad(w.hw) /\ Suits(Class(w.hw), cfg.vehicle) = "?"

Forwards == {"yes", "1"}
Backwards == {"-1"}
BothWays == {"", "no", "reversible", "alternating", "unknown", "-2", "maybe"}
MayForward(w) == w.ow \in Forwards \cup BothWays
MayBackward(w) == w.ow \in Backwards \cup BothWays

(* whole numbers are given by the generator's digits to keep strings simple *)
Digit == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
              [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9]
RECURSIVE ToNat(_, _)
ToNat(ds, k) == IF k = 0 THEN 0 ELSE 10 * ToNat(ds, k - 1) + Digit[ds[k]]

Slowest == 5
Words == ("walk" :> 15) @@ ("de:walk" :> 15) @@ ("de:living_street" :> 15) @@ ("de:urban" :> 50) @@ ("de:motorway" :> 130)
         @@ ("de:zone:30" :> 30) @@ ("de:zone30" :> 30) @@ ("de:bicycle_road" :> 25) @@ ("30 kph" :> 30) @@ ("maxspeed=50" :> 50) @@ ("zone:maxspeed=de:30" :> 30)
(* miles per hour, in km/h, and numbers from which one has to be chosen *)
Miles == ("60 mph" :> 97) @@ ("50 mph" :> 80) @@ ("40 mph" :> 64) @@ ("30 mph" :> 48) @@ ("20 mph" :> 32) @@ ("15 mph" :> 24) @@ ("10 mph" :> 16)
Lists == ("100;70" :> {100, 70}) @@ ("50;30" :> {50, 30}) @@ ("80;60" :> {80, 60}) @@ ("30; 50" :> {30, 50}) @@ ("60;50" :> {60, 50})
         @@ ("100, 70" :> {100, 70}) @@ ("100; 50" :> {100, 50}) @@ ("100;70;50" :> {100, 70, 50}) @@ ("100;80" :> {100, 80}) @@ ("100|70" :> {100, 70})
         @@ ("50; 100" :> {50, 100}) @@ ("50;100" :> {50, 100}) @@ ("60;80" :> {60, 80}) @@ ("70; 50" :> {70, 50}) @@ ("50;70" :> {50, 70})
         @@ ("50; 70" :> {50, 70}) @@ ("30;50" :> {30, 50}) @@ ("50; 30" :> {50, 30}) @@ ("20; 50" :> {20, 50}) @@ ("30;10" :> {30, 10})
         @@ ("30; 40" :> {30, 40}) @@ ("30,50" :> {30, 50})
(* the tag says nothing usable *)
Vague == {"", "none", "signals", "variable", "de:rural", "fast", "fifty", "-30", "30.5"}

MaySpeed(w, v) ==
  IF Len(w.digits) > 0 THEN LET n == ToNat(w.digits, Len(w.digits)) IN v = (IF n < Slowest THEN Slowest ELSE n)
  ELSE IF w.ms \in DOMAIN Words THEN v = Words[w.ms]
  ELSE IF w.ms \in DOMAIN Miles THEN v - Miles[w.ms] <= 6 /\ Miles[w.ms] - v <= 6
  ELSE IF w.ms \in DOMAIN Lists THEN v \in Lists[w.ms]
  ELSE v = Class(w.hw).speed
Known(w) == /\ w.ow \in Forwards \cup Backwards \cup BothWays
            /\ Len(w.digits) > 0 \/ w.ms \in DOMAIN Words \cup DOMAIN Miles \cup DOMAIN Lists \cup Vague

(* cols: which metric each column holds ("speed" or "lanes") *)
MayMetrics(w, cols, m) ==
  /\ Len(m) = Len(cols)
  /\ \A k \in 1..Len(cols) : IF cols[k] = "lanes" THEN m[k] = Class(w.hw).lanes ELSE MaySpeed(w, m[k])
  /\ \A j, k \in 1..Len(cols) : cols[j] = cols[k] => m[j] = m[k]

(* the hops a vehicle may take on a way *)
Hops(w) == LET K == 1..(Len(w.nodes) - 1) IN
  (IF MayForward(w) THEN {<<w.nodes[k], w.nodes[k + 1]>> : k \in K} ELSE {})
  \cup (IF MayBackward(w) THEN {<<w.nodes[k + 1], w.nodes[k]>> : k \in K} ELSE {})

UsableWays(ways, cfg) == {i \in 1..Len(ways) : Usable(ways[i], cfg)}

(* all that has to hold for the edges E (a sequence without order; each [s, d, m]) of the resulting graph *)
MetricsIn(E) == {E[i].m : i \in 1..Len(E)}
EachEdgeIsGiven(ways, cfg, cols, E) ==
  LET M == MetricsIn(E)
      given == UNION {Hops(ways[j]) \X {m \in M : MayMetrics(ways[j], cols, m)} : j \in UsableWays(ways, cfg)}
  IN \A i \in 1..Len(E) : <<<<E[i].s, E[i].d>>, E[i].m>> \in given
EachHopIsThere(ways, cfg, cols, E) ==
  LET M == MetricsIn(E)
      there == [m \in M |-> {<<E[i].s, E[i].d>> : i \in {k \in 1..Len(E) : E[k].m = m}}]
  IN \A j \in UsableWays(ways, cfg) :
       Hops(ways[j]) \subseteq UNION {there[m] : m \in {m \in M : MayMetrics(ways[j], cols, m)}}
NoEdgeTwice(E) == Cardinality({E[i] : i \in 1..Len(E)}) = Len(E)
Needed(ways, cfg) == UNION {{ways[j].nodes[k] : k \in 1..Len(ways[j].nodes)} : j \in UsableWays(ways, cfg)}
=============================================================================
