------------------------------ MODULE Numbers ------------------------------
(* Recorded numbers are exact fractions: neg (0 or 1), num and den (module *)
(* BigNat).  The operators compare them with exact fractions C/T.          *)
EXTENDS Integers, Sequences, BigNat

Ten(k) == Pow(<<10>>, k)

\* | +-a/b - c/d | <= 10^-k
FracWithin(neg, a, b, c, d, k) ==
  LET x == Mul(a, d)
      y == Mul(c, b)
      dist == IF neg = 1 THEN Add(x, y) ELSE Diff(x, y)
  IN LE(Mul(Ten(k), dist), Mul(b, d))

Within(v, C, T, k) == FracWithin(v.neg, v.num, v.den, C, T, k)

\* |v - C/T| <= 10^-k C/T, required only if C/T > 10^-floor
WithinRel(v, C, T, k, floor) ==
  LT(T, Mul(Ten(floor), C)) =>
    LET x == Mul(v.num, T)
        y == Mul(C, v.den)
        dist == IF v.neg = 1 THEN Add(x, y) ELSE Diff(x, y)
    IN LE(Mul(Ten(k), dist), y)

\* |v - w| <= 10^-k
Near(v, w, k) == IF v.neg = w.neg THEN FracWithin(0, v.num, v.den, w.num, w.den, k)
                 ELSE FracWithin(1, v.num, v.den, w.num, w.den, k)

\* v <= w + 10^-k
AtMost(v, w, k) ==
  LET x == Mul(v.num, w.den)
      y == Mul(w.num, v.den)
      slack == Mul(v.den, w.den)                  \* in units of 10^-k
      X == Mul(Ten(k), x)
      Y == Mul(Ten(k), y)
  IN CASE v.neg = 1 /\ w.neg = 0 -> TRUE
       [] v.neg = 0 /\ w.neg = 0 -> LE(X, Add(Y, slack))
       [] v.neg = 1 /\ w.neg = 1 -> LE(Y, Add(X, slack))
       [] v.neg = 0 /\ w.neg = 1 -> LE(Add(X, Y), slack)

Zero == [neg |-> 0, num |-> <<>>, den |-> <<1>>]
One  == [neg |-> 0, num |-> <<1>>, den |-> <<1>>]
Between01(v, k) == AtMost(v, One, k) /\ AtMost(Zero, v, k)
=============================================================================
