------------------------------ MODULE Exploring ------------------------------
(***************************************************************************)
(* What an exploration of alternatives has to return (C15).                 *)
(* a: weighting of the query (its positive entries are considered);         *)
(* scales: tolerated multiples in thousandths (Unlimited: no limit).         *)
(* found: <<[p, c, oc]>> with flattened edges p, their costs c and the       *)
(* costs oc the path itself claims.                                          *)
(***************************************************************************)
EXTENDS Graphs

Unlimited == 2000000000
Considered(a) == {k \in 1..Len(a) : a[k] > 0}

RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<x>> \o SetToSortedSeq(S \ {x})

(* ---- cost-vectors of all paths that no other path undercuts ---- *)
Leq(x, y) == \A k \in 1..Len(x) : x[k] <= y[k]
Add(x, y) == [k \in 1..Len(x) |-> x[k] + y[k]]
Front(S) == {x \in S : \A y \in S : Leq(y, x) => y = x}
RECURSIVE Labels(_, _, _, _)
Labels(g, ks, L, n) ==
  IF n = 0 THEN L
  ELSE LET L2 == TLCEval([v \in Nodes(g) |->
                   Front(L[v] \cup UNION {{Add(x, [k \in 1..Len(ks) |-> g.E[e].m[ks[k]]]) : x \in L[g.E[e].s]}
                                          : e \in {f \in InEdges(g, v) : ~IsShortcut(g, f)}})])
       IN IF L2 = L THEN L ELSE Labels(g, ks, L2, n - 1)
(* ks: sequence of the considered metrics *)
ParetoFrom(g, ks, s) == Labels(g, ks, TLCEval([v \in Nodes(g) |-> IF v = s THEN {[k \in 1..Len(ks) |-> 0]} ELSE {}]), g.n)

(* ---- weightings that could prefer x over all of P ---- *)
Minus(x, y) == [k \in 1..Len(x) |-> x[k] - y[k]]
Unit(k, n) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
Neg(x) == [k \in 1..Len(x) |-> -x[k]]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
(* all extreme rays of {w >= 0 : w.(q - x) >= 0 for q in P} are among these *)
Rays(x, P, n) ==
  LET cs == {Unit(k, n) : k \in 1..n} \cup {Minus(q, x) : q \in P}
  IN CASE n = 1 -> {<<1>>}
       [] n = 2 -> UNION {{<<c[2], -c[1]>>, <<-c[2], c[1]>>} : c \in cs}
       [] n = 3 -> UNION {UNION {{Cross(c, b), Neg(Cross(c, b))} : b \in cs} : c \in cs}
       [] OTHER -> {}
IsWeighting(w) == (\A k \in 1..Len(w) : w[k] >= 0) /\ (\E k \in 1..Len(w) : w[k] > 0)
Supported(x, P) ==
  LET n == Len(x) IN
  IF n > 3 THEN \A q \in P : \E k \in 1..n : x[k] <= q[k]       \* necessary: not undercut everywhere
  ELSE \E w \in Rays(x, P, n) : IsWeighting(w) /\ \A q \in P : Dot(w, x) <= Dot(w, q)

(* x is the only optimum for some weighting: the sum of all extreme rays of its weightings lies inside their cone *)
RECURSIVE SumOf(_, _)
SumOf(S, n) == IF S = {} THEN [k \in 1..n |-> 0] ELSE LET x == CHOOSE y \in S : TRUE IN Add(x, SumOf(S \ {x}, n))
GCD2(a, b) == LET RECURSIVE G(_, _) G(u, v) == IF v = 0 THEN u ELSE G(v, u % v) IN G(a, b)
Primitive(w) == LET n == Len(w)
                    g == IF n = 1 THEN w[1] ELSE IF n = 2 THEN GCD2(w[1], w[2]) ELSE GCD2(w[1], GCD2(w[2], w[3]))
                IN [k \in 1..n |-> w[k] \div g]
StrictlySupported(x, P) ==
  LET n == Len(x)
      V == {Primitive(w) : w \in {r \in Rays(x, P, n) : IsWeighting(r) /\ \A q \in P : Dot(r, x) <= Dot(r, q)}}
      w == SumOf(V, n)
  IN V # {} /\ \A q \in P : q # x => Dot(w, x) < Dot(w, q)
(* Two considered metrics: as soon as three alternatives aren't on a line, the hull is refined until no facet can be improved,
   so nothing that is the only optimum of a weighting is missing. With three metrics, facets may have no weighting of their own. *)
Spanning(S) == \E x, y, z \in S : LET a == Minus(y, x)
                                     b == Minus(z, x) IN a[1] * b[2] # a[2] * b[1]
HullIncomplete(C, P) ==
  /\ \A x \in P : Len(x) = 2
  /\ Spanning(C)
  /\ \E x \in P : x \notin C /\ StrictlySupported(x, P)

(* ---- the clauses ---- *)
Tolerable(c, k, best, scale) == scale = Unlimited \/ c[k] * 1000 <= scale * best

Masks(a) == {m \in [1..Len(a) -> {0, 1}] : (\E k \in 1..Len(a) : m[k] = 1) /\ \A k \in 1..Len(a) : m[k] = 1 => a[k] > 0}

ExploreViolations(g, a, scales, s, d, found, pareto, dists) ==
  LET P  == pareto[d]
      ks == SetToSortedSeq(Considered(a))
      F  == 1..Len(found)
      proj(c) == [i \in 1..Len(ks) |-> c[ks[i]]]
      unlimited == \A k \in Considered(a) : scales[k] = Unlimited
  IN IF P = {} THEN (IF found # <<>> THEN {"path_to_unreachable"} ELSE {})
     ELSE IF \E i \in F : ~IsPath(g, s, d, found[i].p) \/ \E j \in 1..Len(found[i].p) : IsShortcut(g, found[i].p[j]) THEN {"not_a_path"}
     ELSE IF \E i \in F : found[i].c # PathCosts(g, found[i].p, Len(a)) \/ found[i].oc # found[i].c THEN {"wrong_costs"}
     ELSE    (IF \E i, j \in F : i # j /\ found[i].p = found[j].p THEN {"found_twice"} ELSE {})
        \cup (IF \E i \in F : ~Supported(proj(found[i].c), P) THEN {"not_optimal_for_any_weighting"} ELSE {})
        \cup (IF \E i \in F, k \in Considered(a) : ~Tolerable(found[i].c, k, dists[Unit(k, Len(a))][d], scales[k]) THEN {"not_tolerated"} ELSE {})
        \cup (IF unlimited /\ \E m \in Masks(a) : \A i \in F : Dot(m, found[i].c) # dists[m][d] THEN {"optimum_missing"} ELSE {})
        \cup (IF unlimited /\ HullIncomplete({proj(found[i].c) : i \in F}, P) THEN {"alternative_missing"} ELSE {})
=============================================================================
