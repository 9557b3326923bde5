------------------------------ MODULE BalanceRule ------------------------------
(***************************************************************************)
(* The rule that turns the workloads of an iteration into the new values of  *)
(* the balanced metric. Values are fixed-point numbers in units of 1/U.       *)
(* A parameter-record has                                                     *)
(*   avg   running average (TRUE) or explicit step (FALSE)                    *)
(*   c     the step's correction in thousandths                               *)
(*   min   the minimum in units of 1/U, or -1 if none is configured           *)
(*   throw whether values that aren't positive are refused                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
U == 1000000

RECURSIVE Len10(_)
Len10(b) == IF b < 10 THEN 1 ELSE 10 * Len10(b \div 10)
RECURSIVE ByDigits(_, _, _, _, _, _)
(* (r * b) div c digit by digit; c < 10^8, r < c *)
ByDigits(r, b, c, p, q, m) ==
  IF p = 0 THEN q
  ELSE LET x == 10 * m + r * ((b \div p) % 10) IN ByDigits(r, b, c, p \div 10, 10 * q + x \div c, x % c)
MulDivNat(a, b, c) == (a \div c) * b + ByDigits(a % c, b, c, Len10(b), 0, 0)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* a * b / c without leaving TLC's integers *)
MulDiv(a, b, c) ==
  LET v == MulDivNat(Abs(a), Abs(b), Abs(c)) IN IF (a < 0) # ((b < 0) # (c < 0)) THEN 0 - v ELSE v

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))

(* workloads, divided by their mean *)
Normalized(w) == LET S == Sum(w) IN [i \in 1..Len(w) |-> MulDiv(w[i] * Len(w), U, S)]

Combined(p, iter, old, x) ==
  IF p.avg THEN (iter * old + x) \div (iter + 1)
  ELSE old + MulDiv(x - old, p.c, 1000)

Bounded(p, y) == IF p.min >= 0 /\ y < p.min THEN p.min ELSE y

(* the values before they are divided by their mean *)
Raw(p, iter, old, w) ==
  LET x == Normalized(w) IN [i \in 1..Len(w) |-> Bounded(p, Combined(p, iter, old[i], x[i]))]
(* and afterwards *)
Scaled(y) == LET S == Sum(y) IN [i \in 1..Len(y) |-> MulDiv(y[i], Len(y) * U, S)]

AllZero(w) == \A i \in 1..Len(w) : w[i] = 0

(* the rounding of the fixed-point numbers *)
Tol == 4
(* values that are zero without any rounding *)
ExactZero(p, iter, w, i) == w[i] = 0 /\ IF p.avg THEN iter = 0 ELSE p.c = 1000
MustFail(p, iter, old, w) ==
  \/ AllZero(w)
  \/ LET y == Raw(p, iter, old, w) IN
       \/ p.min < 0 /\ p.throw /\ \E i \in 1..Len(w) : y[i] < 0 - Tol \/ ExactZero(p, iter, w, i)
       \/ Sum(y) < 0 - Tol * Len(w)
MayFail(p, iter, old, w) ==
  \/ AllZero(w)
  \/ LET y == Raw(p, iter, old, w) IN
       \/ p.min < 0 /\ p.throw /\ \E i \in 1..Len(w) : y[i] <= Tol
       \/ Sum(y) <= Tol * Len(w)
Near(a, b, t) == a - b <= t /\ b - a <= t
Fuzz(n, S) == Tol + IF S <= n THEN 1000000000 ELSE MulDiv(2 * Tol * n, U, S)
(* new follows the rule at the indices J; if everything is nearly zero, rounding dominates *)
Agrees(p, iter, old, w, new, J) ==
  LET y == Raw(p, iter, old, w)
      n == Len(w)
      S == Sum(y)
      z == Scaled(y)
  IN S <= n * 100 \/ \A i \in J : Near(new[i], z[i], Fuzz(n, S) + MulDiv(Abs(z[i]), Tol * n, S))
=============================================================================
