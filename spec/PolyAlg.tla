------------------------------ MODULE PolyAlg ------------------------------
(* The one-sided algorithm ecdf1-mns2016 as a state machine.               *)
(* The polynomial p_i(x) = i! * Pr-density integral is kept as a sum of    *)
(* translated monomials c_j (x - t_j)^j; step i integrates it from b_i.    *)
(* With x counted in cells and all coefficients multiplied by i! they are  *)
(* integers.  Every Interval steps the coefficients may be rescaled by any *)
(* power of two, which is remembered in 'scale'.                           *)
EXTENDS Crossing, TLC
CONSTANTS MaxN, MaxM, Interval
VARIABLES n, m, b, c, t, deg, scale, pc
vars == <<n, m, b, c, t, deg, scale, pc>>

Mono(q, top) == {s \in [1..q -> 0..top] : \A x \in 1..(q-1) : s[x] <= s[x+1]}
RECURSIVE Power(_, _)
Power(x, q) == IF q = 0 THEN 1 ELSE x * Power(x, q - 1)
RECURSIVE SumOver(_, _, _)
SumOver(F(_), a, z) == IF a > z THEN 0 ELSE F(a) + SumOver(F, a + 1, z)
EvalF(f, g, d, x) == LET T(j) == f[j] * Power(x - g[j], j) IN SumOver(T, 0, d)

Init == /\ n \in 0..MaxN /\ m \in 1..MaxM /\ b \in Mono(n, m)
        /\ c = [j \in {0} |-> 1] /\ t = [j \in {0} |-> 0] /\ deg = 0 /\ scale = 0 /\ pc = "step"

Step ==
  /\ pc = "step" /\ deg < n
  /\ LET d2 == deg + 1
         c1 == [j \in 0..d2 |-> IF j = 0 THEN 0 ELSE (c[j - 1] * d2) \div j]
         t1 == [j \in 0..d2 |-> IF j = 0 THEN 0 ELSE IF j = 1 THEN b[d2] ELSE t[j - 1]]
     IN /\ c' = [c1 EXCEPT ![0] = -EvalF(c1, t1, d2, b[d2])]
        /\ t' = t1 /\ deg' = d2
  /\ pc' = IF deg % Interval = 0 THEN "rescale" ELSE "step"
  /\ UNCHANGED <<n, m, b, scale>>

Rescale(e) ==
  /\ pc = "rescale" /\ pc' = "step"
  /\ c' = [j \in DOMAIN c |-> c[j] * Power(2, e)]
  /\ scale' = scale + e
  /\ UNCHANGED <<n, m, b, t, deg>>

Finish == /\ pc = "step" /\ deg = n /\ pc' = "done" /\ UNCHANGED <<n, m, b, c, t, deg, scale>>

Next == Step \/ (\E e \in 0..1 : Rescale(e)) \/ Finish
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Divides == (pc = "step" /\ deg < n) => \A j \in 1..(deg + 1) : (c[j - 1] * (deg + 1)) % j = 0
Answered == pc = "done" => EvalF(c, t, n, m) = CountDef(n, m, b, <<>>) * Power(2, scale)
(* p_i vanishes at b_i, unless nothing was integrated yet *)
Vanishes == (deg > 0 /\ pc # "done") => EvalF(c, t, deg, b[deg]) = 0
=============================================================================
