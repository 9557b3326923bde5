------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* The abstract graph osmgraphing works on and the notions every property  *)
(* is stated with: paths, costs, distances, reachability, shortcuts.       *)
(*                                                                         *)
(* A graph is a record                                                     *)
(*   n      number of nodes; nodes are 1..n                                *)
(*   lvl    <<level of node 1, ...>>                                       *)
(*   E      <<edge, ...>>, an edge being a record                          *)
(*            s, d   source and destination node                           *)
(*            m      <<value of metric 1, ...>> (naturals)                 *)
(*            sc     <<>> for an original edge, <<a, b>> for a shortcut    *)
(*                   standing for edge a followed by edge b                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 1000000000

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

Nodes(g) == 1..g.n
EdgeIdxs(g) == 1..Len(g.E)
Dim(g) == IF Len(g.E) = 0 THEN 0 ELSE Len(g.E[1].m)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE DotFrom(_, _, _)
DotFrom(a, m, i) == IF i > Len(m) THEN 0 ELSE a[i] * m[i] + DotFrom(a, m, i + 1)
(* weighted costs of a metric-vector *)
Dot(a, m) == DotFrom(a, m, 1)

(* weight of every edge for the weighting a *)
Weights(g, a) == TLCEval([i \in EdgeIdxs(g) |-> Dot(a, g.E[i].m)])

(* ---- distances (Bellman-Ford as the defining fixpoint) ---- *)
InEdges(g, v) == {i \in EdgeIdxs(g) : g.E[i].d = v}

RECURSIVE BellmanFord(_, _, _, _)
BellmanFord(g, w, d, k) ==
  IF k = 0 THEN d
  ELSE LET d2 == TLCEval([v \in Nodes(g) |->
                   SetMin({d[v]} \cup {IF d[g.E[i].s] = Inf \/ w[i] = Inf THEN Inf ELSE d[g.E[i].s] + w[i]
                                       : i \in InEdges(g, v)})])
       IN IF d2 = d THEN d ELSE BellmanFord(g, w, d2, k - 1)

(* Dist(g, w, s)[v] is the least weight of a path from s to v, Inf if there is none *)
Dist(g, w, s) == BellmanFord(g, w, TLCEval([v \in Nodes(g) |-> IF v = s THEN 0 ELSE Inf]), g.n)

RECURSIVE ReachFrom(_, _)
ReachFrom(g, S) ==
  LET T == S \cup {g.E[i].d : i \in {j \in EdgeIdxs(g) : g.E[j].s \in S}}
  IN IF T = S THEN S ELSE ReachFrom(g, T)
Reachable(g, s, d) == d \in ReachFrom(g, {s})

(* ---- paths: sequences of edge-indices ---- *)
IsPath(g, s, d, p) ==
  /\ \A k \in 1..Len(p) : p[k] \in EdgeIdxs(g)
  /\ IF p = <<>> THEN s = d
     ELSE /\ g.E[p[1]].s = s
          /\ g.E[p[Len(p)]].d = d
          /\ \A k \in 1..Len(p)-1 : g.E[p[k]].d = g.E[p[k+1]].s

RECURSIVE MetricSum(_, _, _)
MetricSum(g, p, k) == IF p = <<>> THEN 0 ELSE g.E[Head(p)].m[k] + MetricSum(g, Tail(p), k)
(* cost-vector of a path *)
PathCosts(g, p, dim) == [k \in 1..dim |-> MetricSum(g, p, k)]
RECURSIVE PathWeight(_, _)
PathWeight(w, p) == IF p = <<>> THEN 0 ELSE w[Head(p)] + PathWeight(w, Tail(p))

(* ---- shortcuts ---- *)
IsShortcut(g, i) == g.E[i].sc # <<>>
OriginalOnly(g) == [g EXCEPT !.E = SelectSeq(g.E, LAMBDA e : e.sc = <<>>)]

(* edges from which following shortcut-references never ends *)
RECURSIVE Founded(_, _)
Founded(g, S) ==
  LET T == S \cup {i \in EdgeIdxs(g) : g.E[i].sc # <<>> /\ g.E[i].sc[1] \in S /\ g.E[i].sc[2] \in S}
  IN IF T = S THEN S ELSE Founded(g, T)
WellFounded(g) == Founded(g, {i \in EdgeIdxs(g) : g.E[i].sc = <<>>})
HasCycle(g) == WellFounded(g) # EdgeIdxs(g)

(* the original edges an edge stands for (only for well-founded edges) *)
RECURSIVE Expand(_, _)
Expand(g, i) == IF g.E[i].sc = <<>> THEN <<i>>
                ELSE Expand(g, g.E[i].sc[1]) \o Expand(g, g.E[i].sc[2])
RECURSIVE Flatten(_, _)
Flatten(g, p) == IF p = <<>> THEN <<>> ELSE Expand(g, Head(p)) \o Flatten(g, Tail(p))

Reversed(g) == [g EXCEPT !.E = [i \in EdgeIdxs(g) |-> [g.E[i] EXCEPT !.s = g.E[i].d, !.d = g.E[i].s]]]

(* weights in which edges are unusable that lead to a node of lower level *)
UpWeights(g, w) == TLCEval([i \in EdgeIdxs(g) |-> IF g.lvl[g.E[i].s] <= g.lvl[g.E[i].d] THEN w[i] ELSE Inf])

(* A hierarchy is valid for the weighting w iff the best meeting of an upward path from s and a   *)
(* downward path to d is as short as the shortest path over original edges, for all s and d.      *)
ValidHierarchy(g, w) ==
  LET og == TLCEval(OriginalOnly(g))
      keep == {i \in EdgeIdxs(g) : ~IsShortcut(g, i)}
      ow == TLCEval([i \in EdgeIdxs(g) |-> IF i \in keep THEN w[i] ELSE Inf])
      rg == TLCEval(Reversed(g))
      fw == UpWeights(g, w)
      bw == UpWeights(rg, w)
      fd == TLCEval([s \in Nodes(g) |-> Dist(g, fw, s)])
      bd == TLCEval([d \in Nodes(g) |-> Dist(rg, bw, d)])
      od == TLCEval([s \in Nodes(g) |-> Dist(g, ow, s)])
  IN \A s, d \in Nodes(g) :
       SetMin({Inf} \cup {IF fd[s][v] = Inf \/ bd[d][v] = Inf THEN Inf ELSE fd[s][v] + bd[d][v] : v \in Nodes(g)}) = od[s][d]
=============================================================================
