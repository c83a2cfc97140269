----------------------------- MODULE SweepAlg -----------------------------
(* The two-sided algorithm (ecdf2) as a state machine.                     *)
(*                                                                         *)
(* The boundaries of both lists are swept from left to right, those at the *)
(* same location in any order (the code sorts with an unstable sort).      *)
(* Two buffers hold, for each count s in the active window lo..hi, the     *)
(* weight of having s points so far and no crossing.  The code has Poisson *)
(* weights Pr[N(t) = s]; multiplying them with s! e^(It) (m/I)^s makes     *)
(* them the natural numbers used here, and the convolution with a Poisson  *)
(* pmf becomes  w'[j] = sum_s w[s] * C(j, s) * d^(j-s).                    *)
(* As in the code the inactive buffer keeps its old contents, and a step   *)
(* of length 0 modifies the source buffer in place.                        *)
EXTENDS Crossing, TLC
CONSTANTS MaxN, MaxM
VARIABLES n, m, b, B,           \* the question
          todo,                 \* boundaries not yet swept: <<location, kind, index>>
          src, dest, lo, hi,    \* buffers (indices 0..n) and active window
          pos, pc,
          acc                   \* entries the last step used: size counts from 'from' on, one set to zero
vars == <<n, m, b, B, todo, src, dest, lo, hi, pos, pc, acc>>

Mono(k, top) == {s \in [1..k -> 0..top] : \A i \in 1..(k-1) : s[i] <= s[i+1]}
RECURSIVE Choose(_, _)
Choose(j, s) == IF s = 0 THEN 1 ELSE (Choose(j, s - 1) * (j - s + 1)) \div s
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1 ELSE x * Power(x, k - 1)
RECURSIVE SumOver(_, _, _)
SumOver(F(_), a, z) == IF a > z THEN 0 ELSE F(a) + SumOver(F, a + 1, z)

Init == /\ n \in 0..MaxN /\ m \in 1..MaxM
        /\ b \in Mono(n, m) /\ B \in Mono(n, m)
        /\ \A i \in 1..n : b[i] <= B[i]              \* others are answered at once
        /\ todo = {<<b[i], "b", i>> : i \in 1..n} \cup {<<B[i], "B", i>> : i \in 1..n}
        /\ src = [s \in 0..n |-> IF s = 0 THEN 1 ELSE 0] /\ dest = [s \in 0..n |-> 0]
        /\ lo = 0 /\ hi = 0 /\ pos = 0 /\ pc = "sweep"
        /\ acc = [size |-> -1, from |-> 0, zeroed |-> -1]

Convolved(d) ==
  [j \in 0..n |-> IF lo <= j /\ j <= hi
                  THEN LET T(s) == src[s] * Choose(j, s) * Power(d, j - s) IN SumOver(T, lo, j)
                  ELSE dest[j]]

Cross(kind, buf) == IF kind = "b" THEN [buf EXCEPT ![hi + 1] = 0] ELSE [buf EXCEPT ![lo] = 0]
Window(kind) == /\ hi' = (IF kind = "b" THEN hi + 1 ELSE hi)
                /\ lo' = (IF kind = "B" THEN lo + 1 ELSE lo)

Used(to, zeroed) == acc' = [size |-> IF to > pos THEN hi - lo + 1 ELSE -1, from |-> lo, zeroed |-> zeroed]

Sweep(e) ==
  /\ pc = "sweep" /\ e \in todo /\ \A x \in todo : e[1] <= x[1]
  /\ todo' = todo \ {e} /\ pos' = e[1]
  /\ IF e[1] > pos THEN src' = Cross(e[2], Convolved(e[1] - pos)) /\ dest' = src
     ELSE src' = Cross(e[2], src) /\ dest' = dest
  /\ Window(e[2])
  /\ Used(e[1], IF e[2] = "b" THEN hi + 1 ELSE lo)
  /\ UNCHANGED <<n, m, b, B, pc>>

Finish ==
  /\ pc = "sweep" /\ todo = {} /\ pc' = "done"
  /\ IF m > pos THEN src' = Convolved(m - pos) /\ dest' = src ELSE UNCHANGED <<src, dest>>
  /\ pos' = m /\ Used(m, -1)
  /\ UNCHANGED <<n, m, b, B, todo, lo, hi>>

Next == (\E e \in todo : Sweep(e)) \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
IndexOK  == /\ lo >= 0 /\ hi <= n /\ lo <= n + 1           \* all accesses are within 0..n
            /\ \A e \in todo : e[2] = "b" => hi + 1 <= n
            /\ \A e \in todo : e[2] = "B" => lo <= n
(* Ties may leave the window empty or worse, but never when it is used. *)
WindowOK == (pc = "sweep" /\ \A e \in todo : e[1] > pos) => lo <= hi
Answered == pc = "done" => src[n] = CountDef(n, m, b, B)
OnlyAnswer == pc = "done" => lo = n /\ hi = n
NonNegative == \A s \in 0..n : src[s] >= 0
Terminates == (ENABLED Next) \/ pc = "done"
(* Without numbers this is the machine for which Apalache shows, without a bound on n, that all accesses are inside. *)
Upto(v) == IF hi = 0 /\ lo = 0 THEN 0 ELSE Cardinality({i \in 1..n : v[i] <= pos})
Index == INSTANCE SweepIndex WITH th <- Upto(b), tl <- Upto(B), size <- acc.size, from <- acc.from, zeroed <- acc.zeroed,
                                  done <- (pc = "done")
IsIndex == Index!Spec
=============================================================================
