------------------------------ MODULE Rationals ------------------------------
(***************************************************************************)
(* Exact non-negative rationals [n, d], with a power h of an irrational      *)
(* unit factored out (the length of one degree of a great circle), and        *)
(* their comparison with observed decimals [i, f]: integer part and 10^9-ths. *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d, h) == LET g == Gcd(n, d) IN IF n = 0 THEN [n |-> 0, d |-> 1, h |-> h] ELSE [n |-> n \div g, d |-> d \div g, h |-> h]
(* reduced crosswise before multiplying, to stay within TLC's integers *)
QMul(a, b) == LET x == Q(a.n, b.d, 0)  y == Q(b.n, a.d, 0) IN Q(x.n * y.n, x.d * y.d, a.h + b.h)
QInv(a) == [n |-> a.d, d |-> a.n, h |-> 0 - a.h]
QDiv(a, b) == QMul(a, QInv(b))
QInt(k) == [n |-> k, d |-> 1, h |-> 0]

RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, w) == IF k = 0 THEN 0 ELSE ((10 * r) \div d) * w + Digits((10 * r) % d, d, k - 1, w \div 10)
Frac9(r, d) == Digits(r, d, 9, 100000000)

(* the observed decimal o is the rational q up to t * 10^-9 *)
Near(q, o, t) ==
  LET di == o.i - (q.n \div q.d) IN
  di \in -1..1 /\ LET df == di * 1000000000 + (o.f - Frac9(q.n % q.d, q.d)) IN df <= t /\ 0 - df <= t
=============================================================================
