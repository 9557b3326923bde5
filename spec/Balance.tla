------------------------------- MODULE Balance -------------------------------
(***************************************************************************)
(* What evaluating route-pairs with many threads must yield: which          *)
(* workloads and which vehicles are right for a list of counted pairs.      *)
(***************************************************************************)
EXTENDS Graphs

(* pairs: <<[s, d, k]>>, every (s, d) at most once; dist[s][d] *)
Served(pairs, dist) == {i \in 1..Len(pairs) : dist[pairs[i].s][pairs[i].d] # Inf}

RECURSIVE SumSet(_, _)
(* f is a function *)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(S \ {x}, f)

Orig(g) == {i \in EdgeIdxs(g) : ~IsShortcut(g, i)}

(* at every node, what leaves minus what enters is what starts minus what ends there *)
Flow(g, pairs, dist, W) ==
  LET sv == Served(pairs, dist)
      cnt == [i \in 1..Len(pairs) |-> pairs[i].k]
      wl == W
  IN \A v \in Nodes(g) :
       SumSet({e \in Orig(g) : g.E[e].s = v}, wl) - SumSet({e \in Orig(g) : g.E[e].d = v}, wl)
       = SumSet({i \in sv : pairs[i].s = v}, cnt) - SumSet({i \in sv : pairs[i].d = v}, cnt)

(* altogether the routes are as long as the shortest ones *)
TotalCosts(g, w, pairs, dist, W) ==
  LET wl == [e \in Orig(g) |-> W[e] * w[e]]
      pl == [i \in Served(pairs, dist) |-> pairs[i].k * dist[pairs[i].s][pairs[i].d]]
  IN SumSet(Orig(g), wl) = SumSet(Served(pairs, dist), pl)

(* ---- vehicles: <<[s, d, walk, k]>> with walk as sequence of nodes ---- *)
Between(g, u, v) == {e \in Orig(g) : g.E[e].s = u /\ g.E[e].d = v}
IsWalk(g, x) ==
  IF x.walk = <<>> THEN x.s = x.d
  ELSE /\ x.walk[1] = x.s /\ x.walk[Len(x.walk)] = x.d
       /\ \A i \in 1..Len(x.walk) - 1 : Between(g, x.walk[i], x.walk[i + 1]) # {}
RECURSIVE WalkWeight(_, _, _)
WalkWeight(g, w, walk) ==
  IF Len(walk) < 2 THEN 0
  ELSE SetMin({w[e] : e \in Between(g, walk[1], walk[2])}) + WalkWeight(g, w, Tail(walk))
Steps(walk, u, v) == Cardinality({i \in 1..Len(walk) - 1 : walk[i] = u /\ walk[i + 1] = v})

(* every served pair has as many vehicles as its count says, others have none *)
VehicleCounts(pairs, dist, V) ==
  LET cnt == [x \in 1..Len(V) |-> V[x].k] IN
  /\ \A i \in 1..Len(pairs) :
       SumSet({x \in 1..Len(V) : V[x].s = pairs[i].s /\ V[x].d = pairs[i].d}, cnt)
       = IF i \in Served(pairs, dist) THEN pairs[i].k ELSE 0
  /\ \A x \in 1..Len(V) : \E i \in 1..Len(pairs) : pairs[i].s = V[x].s /\ pairs[i].d = V[x].d
VehiclesAreCounted(g, V, W) ==
  \A u, v \in Nodes(g) :
    LET st == [x \in 1..Len(V) |-> V[x].k * Steps(V[x].walk, u, v)]
        wl == W
    IN SumSet(Between(g, u, v), wl) = SumSet(1..Len(V), st)
=============================================================================
