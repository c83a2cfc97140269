---------------------------- MODULE MCEstimate ----------------------------
(* What crossprob_mc estimates, and which estimates are plausible.         *)
(*                                                                         *)
(* 'ecdf' estimates Pr[b_i <= X_(i), X_(i) <= B_i] for n uniform points,   *)
(* n being the longer length.  'poisson' estimates the probability that a  *)
(* Poisson process of intensity n on [0,1] has at least |B| points, at     *)
(* most |b| points unless b is empty, and that its i-th point is >= b_i    *)
(* and <= B_i.  The lists need not be monotone here, nor inside of [0,1].  *)
EXTENDS Crossing, Numbers, Exp, TLC

---------------------------------------------------------------------------
(* The monotone lists inside of [0,1] that say the same.  Runs. *)
Clip(m, x) == IF x < 0 THEN 0 ELSE IF x > m THEN m ELSE x
RECURSIVE Rising(_, _, _)
Rising(m, r, low) == IF r = <<>> THEN r
                     ELSE LET x == Max2(low, Clip(m, r[1][2]))
                          IN <<<<r[1][1], x>>>> \o Rising(m, Tail(r), x)
RECURSIVE Falling(_, _, _)
Falling(m, r, high) == IF r = <<>> THEN r
                       ELSE LET k == Len(r)
                                x == Min2(high, Clip(m, r[k][2]))
                            IN Falling(m, SubSeq(r, 1, k - 1), x) \o <<<<r[k][1], x>>>>
(* X <= x is impossible for x < 0, X >= x for x > 1 *)
Impossible(m, b, B) == (\E k \in DOMAIN b : b[k][2] > m) \/ (\E k \in DOMAIN B : B[k][2] < 0)

RECURSIVE FirstOf(_, _)
FirstOf(r, k) == IF r = <<>> \/ k <= 0 THEN <<>>
                 ELSE IF r[1][1] >= k THEN <<<<k, r[1][2]>>>>
                 ELSE <<r[1]>> \o FirstOf(Tail(r), k - r[1][1])

CountAny(n, m, b, B) == IF Impossible(m, b, B) THEN <<>>
                        ELSE Count(n, m, Rising(m, b, 0), Falling(m, B, m))

---------------------------------------------------------------------------
(* The probabilities, as <<numerator, denominator>> *)
EcdfProb(m, b, B) ==
  LET n == Max2(Length(b), Length(B))
  IN IF b # <<>> /\ Length(b) < n THEN <<<<>>, <<1>>>>
     ELSE <<CountAny(n, m, b, B), Total(n, m)>>

RECURSIVE PoissonSum(_, _, _, _, _, _)
PoissonSum(n, m, b, B, i, last) ==
  IF i > last THEN <<>>
  ELSE Add(Div(Shl(Mul(Pow(FromNat(n), i), CountAny(i, m, FirstOf(b, i), B)), W), Mul(Fact(i), Total(i, m))),
           PoissonSum(n, m, b, B, i + 1, last))
PoissonProb(m, b, B) ==
  LET n == Max2(Length(b), Length(B))
      last == IF b = <<>> THEN n + (n \div 2) + 60 ELSE Length(b)
  IN IF b # <<>> /\ Length(b) < Length(B) THEN <<<<>>, <<1>>>>
     ELSE IF n = 0 THEN <<<<1>>, <<1>>>>
     ELSE <<PoissonSum(n, m, b, B, Length(B), last), Exp(FromNat(n), <<1>>)>>

Prob(e) == IF e.cmd = "ecdf" THEN EcdfProb(e.m, e.b, e.B) ELSE PoissonProb(e.m, e.b, e.B)

---------------------------------------------------------------------------
(* |v - C/T| <= 14/N + rounding + 6.4 sqrt(C/T (1 - C/T) / N), by          *)
(* Bernstein's inequality wrong with probability < 10^-8. Six digits are   *)
(* printed: the rounding is at most 10^-6, and 5 10^-6 of the number.      *)
Plausible(v, C, T, n) ==
  LET x  == Mul(v.num, T)
      y  == Mul(C, v.den)
      d  == Diff(x, y)                                   \* |v - C/T| times unit
      unit == Mul(v.den, T)
      round == LET p == Div(unit, Ten(6))  q == Div(x, FromNat(200000)) IN IF LE(p, q) THEN p ELSE q
      slack == Add(Div(Mul(unit, FromNat(14)), n), round)
      D  == IF LE(d, slack) THEN <<>> ELSE Sub(d, slack)
  IN v.neg = 0 /\ LE(Mul(n, Mul(D, D)), Mul(FromNat(41), Mul(Mul(C, Sub(T, C)), Mul(v.den, v.den))))

Sure(C, T) == C = T
(* n is the number of simulations, a natural of BigNat *)
Estimate(n, v, C, T) ==
  /\ v.k = "value"
  /\ C = <<>> => v.num = <<>>
  /\ Sure(C, T) => v.num = v.den
  /\ LE(C, T) => Plausible(v, C, T, n)
  \* it is a multiple of 1/N as far as the printed digits tell
  /\ LE(Mul(v.num, Ten(1)), Mul(v.den, FromNat(11)))
  /\ LE(n, FromNat(50000)) =>
       LET kN == Mul(v.num, n)
           q  == Div(Add(Mul(kN, <<2>>), v.den), Mul(v.den, <<2>>))         \* nearest integer to v N
       IN LE(Mul(Diff(Mul(q, v.den), kN), FromNat(190000)), Mul(q, v.den))    \* |q - vN| <= q 5.3e-6

(* The squared deviations of R estimates add up to what independent simulations give, to 6.5 standard
   deviations, about 6.5 sqrt(2/R) of it. In units where NPQ = 1: | sum - R | <= 9.2 sqrt(R). *)
Squares2(vs, C, T, den) ==         \* sum of (v - C/T)^2 in units of 1/(den T)^2
  FoldLeft(LAMBDA sum, v : LET x == Diff(Mul(v.num, Mul(Div(den, v.den), T)), Mul(C, den)) IN Add(Mul(x, x), sum), <<>>, vs)
Spread2(e, C, T) ==
  LET den == Ten(12)                                      \* all printed numbers are multiples of 10^-12
      R == Len(e.vs)
      sum == Mul(Squares2(e.vs, C, T, den), FromNat(e.N))
      one == Mul(Mul(C, Sub(T, C)), Mul(den, den))        \* PQ in the same units
  IN LE(Diff(sum, Mul(FromNat(R), one)), Mul(FromNat(e.tol), one))
=============================================================================
