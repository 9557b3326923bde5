---------------------------- MODULE RoutingConfig ----------------------------
(***************************************************************************)
(* The meaning of a routing-section for a graph with metrics ids (C18).     *)
(* A section is a record                                                    *)
(*   sect     is there a routing-section?     readable  is the file read?    *)
(*   algo     the written algorithm, "" if none                             *)
(*   listed   is there a list of metrics?     extra  any unknown field?     *)
(*   entries  <<[id, a, alpha, s, scale]>> with                             *)
(*            a in {"none", "num", "bad"}, s in {"none", "inf", "num", "bad"}*)
(* Numbers are thousandths; Unlimited stands for an infinite scale.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

One == 1000
Unlimited == 2000000000
Algorithms == {"Dijkstra", "CHDijkstra", "Explorator(Dijkstra)", "Explorator(CHDijkstra)"}

Valid(c, ids) ==
  /\ c.readable /\ c.sect /\ c.listed /\ ~c.extra
  /\ c.algo \in Algorithms
  /\ \A i \in 1..Len(c.entries) :
       /\ \E k \in 1..Len(ids) : ids[k] = c.entries[i].id
       /\ c.entries[i].a # "bad" /\ c.entries[i].s # "bad"

(* nothing is said about a metric listed twice *)
Unambiguous(c) == \A i, j \in 1..Len(c.entries) : c.entries[i].id = c.entries[j].id => i = j

Entry(c, id) == c.entries[CHOOSE i \in 1..Len(c.entries) : c.entries[i].id = id]
Listed(c, id) == \E i \in 1..Len(c.entries) : c.entries[i].id = id

Alpha(c, id) == IF ~Listed(c, id) THEN 0
                ELSE IF Entry(c, id).a = "none" THEN One ELSE Entry(c, id).alpha
Scale(c, id) == IF ~Listed(c, id) THEN Unlimited
                ELSE IF Entry(c, id).s = "num" THEN Entry(c, id).scale ELSE Unlimited

Alphas(c, ids) == [k \in 1..Len(ids) |-> Alpha(c, ids[k])]
Scales(c, ids) == [k \in 1..Len(ids) |-> Scale(c, ids[k])]
=============================================================================
