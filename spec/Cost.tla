------------------------------- MODULE Cost -------------------------------
(* How much work the algorithms do.                                        *)
(*                                                                         *)
(* n times GrowthPer(n) is what is documented: O(n^3) for ks, O(n^2 log n) *)
(* for fft, O(n^2) for the one-sided algorithms.                           *)
(* The machine below charges each step of the sweep (module SweepAlg), of  *)
(* the jumps (JumpAlg) and of the integrations (PolyAlg) with what it      *)
(* costs.  TLC checks, over every order of the boundaries and every size   *)
(* up to a bound, that the charges stay within a constant times Growth.    *)
EXTENDS Naturals, Sequences

Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
RECURSIVE Log2(_)
Log2(k) == IF k <= 1 THEN 0 ELSE 1 + Log2((k + 1) \div 2)          \* rounded up
RECURSIVE Root(_, _)
Root(k, x) == IF (x + 1) * (x + 1) > k THEN x ELSE Root(k, x + 1)   \* floor of the square root

TwoSided == {"ks", "fft"}
OneSided == {"new_b", "new_B", "mns_b", "mns_B"}
Jumping  == {"new_b", "new_B"}
GrowthPer(alg, n) ==                    \* Growth divided by n
  LET x == Max2(n, 1)
  IN CASE alg = "ks" -> x * x
       [] alg = "fft" -> x * Max2(Log2(x), 1)
       [] alg \in OneSided -> x

(* One convolution of w numbers, directly or by transforms of P numbers. *)
Direct(w) == (w * (w + 1)) \div 2
Padded(w, unit) == ((2 * w + unit - 1) \div unit) * unit
Transforms(w, unit) == LET p == Padded(w, unit) IN 3 * p * Log2(p)
ByLength(w, switch, unit) == IF w < switch THEN Direct(w) ELSE Transforms(w, unit)
=============================================================================
