------------------------------ MODULE OsmPasses ------------------------------
(***************************************************************************)
(* The importer reads a file twice: first all ways, then all nodes. Its       *)
(* objects arrive in any order. The result is the one OsmImport asks for.     *)
(***************************************************************************)
EXTENDS OsmImport
CONSTANTS N
VARIABLES cfg, ways, todo, pass, edges, wanted, got
vars == <<cfg, ways, todo, pass, edges, wanted, got>>

Kinds == {<<"residential", "", "">>, <<"residential", "yes", "">>, <<"residential", "-1", "">>, <<"primary", "-1", "">>, <<"cycleway", "no", "">>, <<"", "", "">>}
NodeLists == {<<a, b>> : a, b \in 1..N} \cup {<<a, b, c>> : a, b, c \in 1..N} \cup {<<1>>}
Way == {[nodes |-> n, hw |-> k[1], ow |-> k[2], ms |-> k[3], digits |-> <<>>] : n \in NodeLists, k \in Kinds}
Cols == <<"speed", "lanes">>
Metrics(w) == <<Class(w.hw).speed, Class(w.hw).lanes>>

Init == /\ cfg \in {[vehicle |-> "Car", picky |-> TRUE], [vehicle |-> "Bicycle", picky |-> FALSE]}
        /\ ways \in {<<a, b>> : a, b \in Way}
        /\ todo = {1, 2} /\ pass = "ways" /\ edges = {} /\ wanted = {} /\ got = {}

(* as the parser does it: nodes forwards and, if allowed, backwards again *)
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
Line(w) == LET s == IF w.ow \in Backwards THEN Rev(w.nodes) ELSE w.nodes IN
           IF w.ow \in Forwards \cup Backwards THEN s ELSE s \o Tail(Rev(s))
ReadWay(j) ==
  /\ pass = "ways" /\ j \in todo /\ todo' = todo \ {j}
  /\ LET w == ways[j] IN
     IF Usable(w, cfg)
     THEN LET l == Line(w) IN
          /\ edges' = edges \cup {[s |-> l[k], d |-> l[k + 1], m |-> Metrics(w)] : k \in 1..(Len(l) - 1)}
          /\ wanted' = wanted \cup {l[k] : k \in 1..Len(l)}
     ELSE UNCHANGED <<edges, wanted>>
  /\ UNCHANGED <<cfg, ways, pass, got>>
Turn == pass = "ways" /\ todo = {} /\ pass' = "nodes" /\ todo' = 1..N /\ UNCHANGED <<cfg, ways, edges, wanted, got>>
ReadNode(n) ==
  /\ pass = "nodes" /\ n \in todo /\ todo' = todo \ {n}
  /\ got' = IF n \in wanted THEN got \cup {n} ELSE got
  /\ UNCHANGED <<cfg, ways, pass, edges, wanted>>
Next == (\E j \in {1, 2} : ReadWay(j)) \/ Turn \/ \E n \in 1..N : ReadNode(n)
Spec == Init /\ [][Next]_vars

Done == pass = "nodes" /\ todo = {}
ToSeq(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]
Right == Done => LET E == ToSeq(edges) IN
                 /\ EachEdgeIsGiven(ways, cfg, Cols, E) /\ EachHopIsThere(ways, cfg, Cols, E)
                 /\ got = Needed(ways, cfg)
=============================================================================
