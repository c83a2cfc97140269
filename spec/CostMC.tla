------------------------------ MODULE CostMC ------------------------------
(* The machine of module Cost: every order in which boundaries are crossed,*)
(* every transform length unit and every size at which transforms start.   *)
EXTENDS Cost, TLC
CONSTANTS MaxN, Big
VARIABLES alg, n, lo, hi,       \* sweep: the active window
          i, k,                 \* jumps: position and jump size
          switch, unit,         \* of the convolution
          work, pc
vars == <<alg, n, lo, hi, i, k, switch, unit, work, pc>>

Init == /\ alg \in {"ks", "fft", "new_B", "mns_b"} /\ n \in 1..MaxN
        /\ switch \in 1..3 /\ unit \in {1, 2, 4}
        /\ lo = 0 /\ hi = 0 /\ i = 0 /\ k = Min2(Root(n, 0) + 1, n) /\ work = 0
        /\ pc = IF alg \in TwoSided THEN "sweep" ELSE IF alg \in Jumping THEN "jump" ELSE "integrate"
        /\ alg # "fft" /\ alg # "new_B" => switch = 1 /\ unit = 1

Charge(w) == IF alg = "ks" THEN Direct(w) ELSE ByLength(w, switch, unit)
(* A tie is a step that costs nothing; the dearest case is that of no ties. *)
Sweep == /\ pc = "sweep"
         /\ \/ hi < n /\ hi' = hi + 1 /\ UNCHANGED lo
            \/ lo < n /\ lo' = lo + 1 /\ UNCHANGED hi
         /\ lo' <= hi' + 1
         /\ work' = work + (IF lo <= hi THEN Charge(hi - lo + 1) + hi - lo + 1 ELSE 0)
         /\ UNCHANGED <<alg, n, i, k, switch, unit, pc>>
SweepEnd == /\ pc = "sweep" /\ lo = n /\ hi = n /\ pc' = "done" /\ work' = work + 2
            /\ UNCHANGED <<alg, n, lo, hi, i, k, switch, unit>>

RECURSIVE Exits(_, _)
Exits(j, len) == IF j >= len THEN 0 ELSE Charge(len - j) + (n - i) + Exits(j + 1, len)
Jump == /\ pc = "jump"
        /\ LET len == Min2(k, n - i)
           IN /\ work' = work + Charge(n - i + 1) + n + Exits(1, len)
              /\ i' = i + len
              /\ pc' = IF i + len = n THEN "done" ELSE "jump"
        /\ UNCHANGED <<alg, n, lo, hi, k, switch, unit>>

Integrate == /\ pc = "integrate"
             /\ i' = i + 1 /\ work' = work + 3 * (i + 1)
             /\ pc' = IF i + 1 = n THEN "done" ELSE "integrate"
             /\ UNCHANGED <<alg, n, lo, hi, k, switch, unit>>
Next == Sweep \/ SweepEnd \/ Jump \/ Integrate
Spec == Init /\ [][Next]_vars

InBudget == work <= 60 * n * GrowthPer(alg, n)

---------------------------------------------------------------------------
(* Large sizes: the dearest order of the sweep (all of b first), the real  *)
(* constants of the convolution, in units of Growth.                       *)
RECURSIVE SumTo(_, _, _)
SumTo(F(_), a, z) == IF a > z THEN 0
                     ELSE IF a = z THEN F(a)
                     ELSE LET h == (a + z) \div 2 IN SumTo(F, a, h) + SumTo(F, h + 1, z)
PerUnit(algo, x) ==         \* work of the dearest question of size x, divided by x
  CASE algo = "ks" -> LET T(w) == (2 * Direct(w)) \div x IN SumTo(T, 1, x + 1)
    [] algo = "fft" -> LET T(w) == (2 * ByLength(w, 128, 2048)) \div x IN SumTo(T, 1, x + 1)
    [] algo = "new_B" -> LET j == Root(x, 0) + 1
                             E(y) == (ByLength(y, 128, 2048) * (x \div j + 1)) \div x
                         IN ((x \div j + 1) * (ByLength(x + 1, 128, 2048) \div x + 1)) + SumTo(E, 1, j) + x
    [] algo = "mns_b" -> 3 * (x + 1)
ASSUME \A algo \in {"ks", "fft", "new_B", "mns_b"} : \A x \in Big :
         PerUnit(algo, x) <= 14 * GrowthPer(algo, x)
=============================================================================
