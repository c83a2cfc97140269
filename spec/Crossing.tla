----------------------------- MODULE Crossing -----------------------------
(* What the library computes.                                              *)
(*                                                                         *)
(* Boundaries lie on a grid: the number l stands for the point l/m.        *)
(* n uniform points on [0,1] fall independently into the cells 1..m, cell  *)
(* c being the interval from (c-1)/m to c/m.  The order statistic X_(i) is *)
(* at least b_i/m iff the i-th smallest cell is > b_i, and at most B_i/m   *)
(* iff it is <= B_i (up to events of probability 0).  So                   *)
(*   Pr[b_i <= X_(i) <= B_i for all i] = CountDef / m^n                    *)
(* with CountDef below.  An empty list bounds nothing.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, BigNat

OrderStat(f, n, m, i) ==
  CHOOSE c \in 1..m : /\ Cardinality({j \in 1..n : f[j] < c}) < i
                      /\ i <= Cardinality({j \in 1..n : f[j] <= c})

Satisfies(f, n, m, b, B) ==
  \A i \in 1..n : LET c == OrderStat(f, n, m, i)
                  IN (i <= Len(b) => b[i] < c) /\ (i <= Len(B) => c <= B[i])

CountDef(n, m, b, B) == Cardinality({f \in [1..n -> 1..m] : Satisfies(f, n, m, b, B)})

---------------------------------------------------------------------------
(* The same number for sizes at which nothing can be enumerated.           *)
(* A list is given by its runs <<how often, level>>.  Let N(l) be the      *)
(* number of points in the cells 1..l.  All bounds hold iff for all l      *)
(*    #{i : B_i <= l} <= N(l) <= #{i : b_i < l},                           *)
(* which only needs to be checked at the levels that occur.                *)
(*                                                                         *)
(* The cells need not have the same width: at is <<>> for a grid of equal  *)
(* cells, and otherwise gives the place at[l] of every level l (a number   *)
(* of BigNat, in units of which at[m] make up the interval).  This is the  *)
(* grid of at[m] equal cells of which only the levels at[l] are used.      *)

RECURSIVE SumRuns(_, _, _)
SumRuns(r, i, j) == IF i > j THEN 0 ELSE IF i = j THEN r[i][1]
                    ELSE LET h == (i + j) \div 2 IN SumRuns(r, i, h) + SumRuns(r, h + 1, j)
Length(r) == SumRuns(r, 1, Len(r))

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

Place(at, l) == IF at = <<>> THEN FromNat(l) ELSE IF l = 0 THEN <<>> ELSE at[l]
Width(at, l1, l2) == IF at = <<>> THEN FromNat(l2 - l1) ELSE Sub(Place(at, l2), Place(at, l1))

(* One step goes to the next level that occurs.  V counts the placements   *)
(* of lo, lo+1, ... points in the cells 1..pos, and the first i-1 and j-1  *)
(* runs of the lists, with cb and cB bounds, are behind.                   *)
SweepStart == [V |-> <<<<1>>>>, lo |-> 0, pos |-> 0, i |-> 1, cb |-> 0, j |-> 1, cB |-> 0]
SweepStep(at, n, br, Br, x) ==
  LET upper == /\ x.j <= Len(Br)                   \* equal levels: the upper bound first
               /\ x.i <= Len(br) => Br[x.j][2] <= br[x.i][2]
      l   == IF upper THEN Br[x.j][2] ELSE br[x.i][2]
      cB  == IF upper THEN x.cB + Br[x.j][1] ELSE x.cB
      lo2 == Max2(x.lo, cB)
      hi2 == IF br = <<>> THEN n ELSE Min2(n, x.cb)
  IN IF x.V = <<>> THEN x
     ELSE [V |-> Spread(x.V, x.lo, n, Width(at, x.pos, l), lo2, hi2), lo |-> lo2, pos |-> l,
           i |-> IF upper THEN x.i ELSE x.i + 1, cb |-> IF upper THEN x.cb ELSE x.cb + br[x.i][1],
           j |-> IF upper THEN x.j + 1 ELSE x.j, cB |-> cB]

CountAt(at, n, m, br, Br) ==
  LET x == FoldLeft(LAMBDA y, k : SweepStep(at, n, br, Br, y), SweepStart, [k \in 1..(Len(br) + Len(Br)) |-> k])
  IN IF x.V = <<>> \/ x.lo > n THEN <<>>
     ELSE Spread(x.V, x.lo, n, Width(at, x.pos, m), n, n)[1]       \* all points fall somewhere
Count(n, m, br, Br) == CountAt(<<>>, n, m, br, Br)

TotalAt(at, n, m) == Pow(Place(at, m), n)
Total(n, m) == TotalAt(<<>>, n, m)

Runs(b) == [i \in 1..Len(b) |-> <<1, b[i]>>]
Reflect(m, r) == [k \in 1..Len(r) |-> <<r[Len(r) + 1 - k][1], m - r[Len(r) + 1 - k][2]>>]

---------------------------------------------------------------------------
(* A straight line of n different lower bounds has a closed form: k bounds *)
(* 0 and then a, 2a, ..., (n-k)a, with (n-k)a <= m.  A violation is an i   *)
(* with N(ia) >= i+k, and the last such i has N(ia) = i+k.  Given that,    *)
(* the other q = n-i-k points beyond ia stay below the rest of the line    *)
(* with the probability 1 - aq/(m-ia) of the ballot theorem.               *)
LineRuns(n, k, a) == (IF k = 0 THEN <<>> ELSE <<<<k, 0>>>>) \o [i \in 1..(n - k) |-> <<1, i * a>>]
LineTerm(n, k, a, m, i) ==
  LET q == n - i - k
      inside == Mul(Binom(n, q), Pow(FromNat(i * a), i + k))
  IN IF q = 0 THEN inside
     ELSE Mul(inside, Mul(Pow(FromNat(m - i * a), q - 1), FromNat(m - i * a - a * q)))
RECURSIVE LineTerms(_, _, _, _, _, _)
LineTerms(n, k, a, m, i, j) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN LineTerm(n, k, a, m, i)
  ELSE LET h == (i + j) \div 2 IN Add(LineTerms(n, k, a, m, i, h), LineTerms(n, k, a, m, h + 1, j))
LineCount(n, k, a, m) == Sub(Total(n, m), LineTerms(n, k, a, m, 1, n - k))

---------------------------------------------------------------------------
(* Which lists are valid.  Levels outside 0..m stand for numbers outside   *)
(* [0,1].                                                                  *)
Monotone(r) == \A k \in 1..(Len(r) - 1) : r[k][2] <= r[k+1][2]
InRange(m, r) == \A k \in 1..Len(r) : 0 <= r[k][2] /\ r[k][2] <= m
Valid(m, r) == Monotone(r) /\ InRange(m, r)
=============================================================================
