---------------------------- MODULE BigNatRef ----------------------------
(* Natural numbers of any size, since TLC's integers have 32 bits.         *)
(* A number is the sequence of its digits in base 2^15, least significant  *)
(* first, without leading zeros (so 0 is << >> and equality is equality).  *)
(* These are the reference definitions.  Module BigNat repeats the         *)
(* operators and lets TLC evaluate them with java.math.BigInteger; module  *)
(* BigNatTest checks that both agree.                                      *)
EXTENDS Naturals, Integers, Sequences

Base == 32768

RECURSIVE Norm(_)
Norm(a) == IF a = <<>> THEN a
           ELSE IF a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE FromNat(_)
FromNat(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o FromNat(k \div Base)

Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c
       IN <<s % Base>> \o AddC(a, b, i + 1, s \div Base)
Add(a, b) == AddC(a, b, 1, 0)

RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == Dig(a, i) - Dig(b, i) - c
       IN IF s < 0 THEN <<s + Base>> \o SubC(a, b, i + 1, 1)
          ELSE <<s>> \o SubC(a, b, i + 1, 0)
Sub(a, b) == Norm(SubC(a, b, 1, 0))          \* requires a >= b

RECURSIVE CmpC(_, _, _)
CmpC(a, b, i) == IF i = 0 THEN 0
                 ELSE IF a[i] > b[i] THEN 1
                 ELSE IF a[i] < b[i] THEN -1 ELSE CmpC(a, b, i - 1)
Cmp(a, b) == IF Len(a) > Len(b) THEN 1
             ELSE IF Len(a) < Len(b) THEN -1 ELSE CmpC(a, b, Len(a))

RECURSIVE MulSmallC(_, _, _, _)
MulSmallC(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c
       IN <<s % Base>> \o MulSmallC(a, d, i + 1, s \div Base)
MulSmall(a, d) == Norm(MulSmallC(a, d, 1, 0))   \* 0 <= d < Base

Shift(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a

RECURSIVE Mul(_, _)
Mul(a, b) == IF b = <<>> THEN <<>>
             ELSE Add(MulSmall(a, b[1]), Shift(Mul(a, Tail(b)), 1))

RECURSIVE DivSmallC(_, _, _, _)
DivSmallC(a, d, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET s == r * Base + a[i]
       IN DivSmallC(a, d, i - 1, s % d) \o <<s \div d>>
DivSmall(a, d) == Norm(DivSmallC(a, d, Len(a), 0))   \* 0 < d < Base

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN <<1>> ELSE Mul(a, Pow(a, k - 1))

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)       \* k <= 14
Shl(a, k) == Shift(MulSmall(a, Pow2(k % 15)), k \div 15)
Shr(a, k) == LET q == k \div 15
             IN IF q >= Len(a) THEN <<>>
                ELSE DivSmall(SubSeq(a, q + 1, Len(a)), Pow2(k % 15))

(* Quotient of a by b > 0, one bit at a time. *)
RECURSIVE DivC(_, _, _)
DivC(a, b, k) ==
  IF k < 0 THEN <<>>
  ELSE LET t == Shl(b, k)
       IN IF Cmp(a, t) >= 0 THEN Add(Shl(<<1>>, k), DivC(Sub(a, t), b, k - 1))
          ELSE DivC(a, b, k - 1)
Div(a, b) == DivC(a, b, 15 * Len(a))
Mod(a, b) == Sub(a, Mul(Div(a, b), b))

RECURSIVE BitOp(_, _, _, _)
BitOp(kind, x, y, k) ==       \* on the low k bits of two digits
  IF k = 0 THEN 0
  ELSE LET p == x % 2  q == y % 2
           r == CASE kind = "xor" -> (p + q) % 2
                  [] kind = "and" -> p * q
       IN r + 2 * BitOp(kind, x \div 2, y \div 2, k - 1)
Xor(a, b) == Norm([i \in 1..Max2(Len(a), Len(b)) |-> BitOp("xor", Dig(a, i), Dig(b, i), 15)])
And(a, b) == Norm([i \in 1..Max2(Len(a), Len(b)) |-> BitOp("and", Dig(a, i), Dig(b, i), 15)])

RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN <<1>> ELSE Mul(FromNat(k), Fact(k - 1))

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN <<1>>
               ELSE Div(Mul(Binom(n, k - 1), FromNat(n - k + 1)), FromNat(k))

(* V[1], V[2], ... are the numbers of ways to have lo, lo+1, ... of n      *)
(* labelled points placed so far.  Spread places more of the remaining     *)
(* points into the next w cells (w is such a number, too), and gives the   *)
(* numbers of ways to have lo2, ..., hi2 points placed afterwards.         *)
RECURSIVE SpreadSum(_, _, _, _, _, _)
SpreadSum(V, lo, n, w, s2, k) ==
  IF k > Len(V) \/ lo + k - 1 > s2 THEN <<>>
  ELSE LET s == lo + k - 1
       IN Add(Mul(V[k], Mul(Binom(n - s, s2 - s), Pow(w, s2 - s))),
              SpreadSum(V, lo, n, w, s2, k + 1))
Spread(V, lo, n, w, lo2, hi2) ==
  [i \in 1..(IF hi2 >= lo2 THEN hi2 - lo2 + 1 ELSE 0) |-> SpreadSum(V, lo, n, w, lo2 + i - 1, 1)]
=============================================================================
