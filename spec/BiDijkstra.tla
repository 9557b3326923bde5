----------------------------- MODULE BiDijkstra -----------------------------
(***************************************************************************)
(* The bidirectional search of src/routing/dijkstra.rs, one action per      *)
(* dequeued node ("the loop body"), for every graph over N nodes with       *)
(* weights out of Ws and every pair of nodes.  Ties in the queue are        *)
(* resolved in every possible way.  With CH = TRUE, nodes 1..N-Core are      *)
(* contracted one after another (node v has level v, shortcuts between all   *)
(* its higher neighbours), the remaining core shares the top level, and the  *)
(* search never goes downwards.                                             *)
(*                                                                         *)
(* Checked: when the search ends, it has found a meeting node iff the       *)
(* destination is reachable, and the predecessor-chains through it have      *)
(* exactly the costs of a shortest path in the uncontracted graph.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Ws, CH, Core, Srcs, Dsts
Inf == 1000000
V == 1..N
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Plus(a, b) == IF a = Inf \/ b = Inf THEN Inf ELSE a + b

VARIABLES w0,     \* weights of the original graph (Inf: no edge)
          w,      \* weights of the searched graph
          s, d,   \* the query
          q,      \* set of <<cost, node, dir>>; dir 1 = forward, 2 = backward
          cost, pred, visited, done, best, ended
vars == <<w0, w, s, d, q, cost, pred, visited, done, best, ended>>

Level(v) == IF v > N - Core THEN N - Core + 1 ELSE v
(* all shortcuts of contracting 1, 2, ..., N - Core *)
RECURSIVE Contract(_, _)
Contract(W, v) ==
  IF v > N - Core THEN W
  ELSE Contract(TLCEval([p \in V \X V |->
         IF p[1] > v /\ p[2] > v /\ p[1] # p[2]
         THEN Min({W[p], Plus(W[<<p[1], v>>], W[<<v, p[2]>>])}) ELSE W[p]]), v + 1)

RECURSIVE Relax(_, _, _)
Relax(W, dist, k) ==
  IF k = 0 THEN dist
  ELSE Relax(W, TLCEval([v \in V |-> Min({dist[v]} \cup {Plus(dist[u], W[<<u, v>>]) : u \in V})]), k - 1)
Dist(W, src) == Relax(W, [v \in V |-> IF v = src THEN 0 ELSE Inf], N)

Init ==
  /\ w0 \in {[p \in V \X V |-> IF p[1] = p[2] THEN Inf ELSE f[p]] : f \in [{p \in V \X V : p[1] # p[2]} -> Ws \cup {Inf}]}
  /\ w = IF CH THEN Contract(w0, 1) ELSE w0
  /\ s \in Srcs /\ d \in Dsts
  /\ q = {<<0, s, 1>>, <<0, d, 2>>}
  /\ cost = [i \in {1, 2} |-> [v \in V |-> IF v = (IF i = 1 THEN s ELSE d) THEN 0 ELSE Inf]]
  /\ pred = [i \in {1, 2} |-> [v \in V |-> 0]]
  /\ visited = [i \in {1, 2} |-> [v \in V |-> FALSE]]
  /\ done = [i \in {1, 2} |-> FALSE]
  /\ best = <<0, Inf>>
  /\ ended = FALSE

Weight(dir, u, v) == IF dir = 1 THEN w[<<u, v>>] ELSE w[<<v, u>>]
Usable(dir, u, v) == Weight(dir, u, v) # Inf /\ (~CH \/ Level(u) <= Level(v))

Pop(x) ==
  LET c == x[1] u == x[2] dir == x[3] opp == 3 - dir
      q1 == q \ {x}
  IN
  IF done[1] /\ done[2] THEN /\ ended' = TRUE
                             /\ UNCHANGED <<w0, w, s, d, q, cost, pred, visited, done, best>>
  ELSE IF c > cost[dir][u] THEN /\ q' = q1
                                /\ UNCHANGED <<w0, w, s, d, cost, pred, visited, done, best, ended>>
  ELSE
    LET vis == [visited EXCEPT ![dir][u] = TRUE]
        total == Plus(cost[1][u], cost[2][u])
        giveup == best[1] # 0 /\ c > best[2]
        meets == IF CH THEN cost[opp][u] # Inf ELSE vis[opp][u]
        best1 == IF best[1] # 0 THEN (IF total < best[2] THEN <<u, total>> ELSE best)
                 ELSE IF meets THEN <<u, total>> ELSE best
        better == {v \in V : Usable(dir, u, v) /\ c + Weight(dir, u, v) < cost[dir][v]}
    IN /\ visited' = vis
       /\ UNCHANGED <<w0, w, s, d, ended>>
       /\ IF giveup
          THEN /\ done' = [done EXCEPT ![dir] = TRUE]
               /\ q' = q1
               /\ UNCHANGED <<cost, pred, best>>
          ELSE /\ best' = best1
               /\ done' = done
               /\ cost' = [cost EXCEPT ![dir] = [v \in V |-> IF v \in better THEN c + Weight(dir, u, v) ELSE @[v]]]
               /\ pred' = [pred EXCEPT ![dir] = [v \in V |-> IF v \in better THEN u ELSE @[v]]]
               /\ q' = IF CH \/ best1[1] = 0 THEN q1 \cup {<<c + Weight(dir, u, v), v, dir>> : v \in better} ELSE q1

Next == \/ /\ ~ended /\ q # {}
           /\ \E x \in q : (\A y \in q : x[1] <= y[1]) /\ Pop(x)
        \/ /\ ~ended /\ q = {} /\ ended' = TRUE
           /\ UNCHANGED <<w0, w, s, d, q, cost, pred, visited, done, best>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE ChainCost(_, _, _)
ChainCost(dir, v, k) ==
  IF pred[dir][v] = 0 \/ k = 0 THEN (IF v = (IF dir = 1 THEN s ELSE d) THEN 0 ELSE Inf)
  ELSE Plus(ChainCost(dir, pred[dir][v], k - 1), Weight(dir, pred[dir][v], v))

Optimal == ended =>
  LET opt == Dist(w0, s)[d]
  IN IF best[1] = 0 THEN opt = Inf
     ELSE Plus(ChainCost(1, best[1], N), ChainCost(2, best[1], N)) = opt
(* costs never claim to be better than possible *)
Sound == \A v \in V : cost[1][v] >= Dist(w0, s)[v]
Terminates == <>ended
=============================================================================
