------------------------------ MODULE JumpAlg ------------------------------
(* The one-sided algorithm ecdf1-new as a state machine, for any jump size.*)
(* X_(i) <= B_i for all i, i.e. at least i points are in the cells 1..B_i. *)
(* Indices are those of the code: step i crosses B_(i+1) and requires more *)
(* than i points by then.  A jump goes from step prev to step next in one  *)
(* convolution that ignores the steps between, and then subtracts for each *)
(* step i between the paths that violate the bound there for the first     *)
(* time.  Weights are scaled to natural numbers as in module SweepAlg.     *)
EXTENDS Crossing, TLC
CONSTANTS MaxN, MaxM
VARIABLES n, m, B, k,             \* the question and the jump size
          src, dest,              \* weights of 0..n points
          mini,                   \* weights of prev+1.. points, within a jump
          prev, next, i, pc,
          acc                     \* entries the last step used
vars == <<n, m, B, k, src, dest, mini, prev, next, i, pc, acc>>

Mono(q, top) == {s \in [1..q -> 0..top] : \A x \in 1..(q-1) : s[x] <= s[x+1]}
RECURSIVE Choose(_, _)
Choose(j, s) == IF s = 0 THEN 1 ELSE (Choose(j, s - 1) * (j - s + 1)) \div s
RECURSIVE Power(_, _)
Power(x, q) == IF q = 0 THEN 1 ELSE x * Power(x, q - 1)
RECURSIVE SumOver(_, _, _)
SumOver(F(_), a, z) == IF a > z THEN 0 ELSE F(a) + SumOver(F, a + 1, z)

At(x) == IF x < 0 THEN 0 ELSE B[x + 1]
Conv(V, a, j, d) == LET T(s) == V[s] * Choose(j, s) * Power(d, j - s) IN SumOver(T, a, j)

Init == /\ n \in 1..MaxN /\ m \in 1..MaxM /\ B \in Mono(n, m) /\ k \in 1..n
        /\ src = [s \in 0..n |-> IF s = 0 THEN 1 ELSE 0] /\ dest = [s \in 0..n |-> 0]
        /\ mini = <<>> /\ prev = -1 /\ next = Min2(k - 1, n - 1) /\ i = 0 /\ pc = "jump"
        /\ acc = [conv |-> 0, pmf |-> 0, lut |-> 0, biga |-> 0, bigz |-> -1, minia |-> 0, miniz |-> -1, list |-> 0]

Jump ==         \* one big convolution; paths below the bound at 'next' are dropped
  /\ pc = "jump"
  /\ dest' = [j \in 0..n |-> IF j <= next THEN 0 ELSE Conv(src, prev + 1, j, At(next) - At(prev))]
  /\ mini' = [s \in (prev + 1)..next |-> src[s]]
  /\ i' = prev + 1 /\ pc' = "exits"
  /\ acc' = [conv |-> n - prev, pmf |-> n - prev, lut |-> n - prev + 1, biga |-> 0, bigz |-> n,
             minia |-> 0, miniz |-> Cardinality(DOMAIN mini') - 1, list |-> next]
  /\ UNCHANGED <<n, m, B, k, src, prev, next>>

Exit ==         \* first violations at step i: exactly i points at B_(i+1)
  /\ pc = "exits" /\ i < next
  /\ LET now == [j \in i..next |-> Conv(mini, i, j, At(i) - At(i - 1))]
         first == now[i]
     IN /\ dest' = [j \in 0..n |-> IF j <= next THEN dest[j]
                       ELSE dest[j] - first * Choose(j, i) * Power(At(next) - At(i), j - i)]
        /\ mini' = [j \in (i + 1)..next |-> now[j]]
  /\ i' = i + 1
  /\ acc' = [conv |-> Cardinality(DOMAIN mini), pmf |-> next - i + 1, lut |-> n - i + 1, biga |-> next + 1, bigz |-> n,
             minia |-> i - prev - 1, miniz |-> i - prev - 1 + Cardinality(DOMAIN mini) - 1, list |-> i]
  /\ UNCHANGED <<n, m, B, k, src, prev, next, pc>>

Land ==
  /\ pc = "exits" /\ i >= next
  /\ src' = dest /\ dest' = src
  /\ prev' = next /\ next' = Min2(next + k, n - 1)
  /\ mini' = <<>> /\ i' = 0
  /\ pc' = IF next = n - 1 THEN "final" ELSE "jump"
  /\ UNCHANGED <<n, m, B, k, acc>>

Final ==
  /\ pc = "final"
  /\ dest' = [j \in 0..n |-> IF j < n THEN 0 ELSE Conv(src, n, n, m - At(n - 1))]
  /\ pc' = "done"
  /\ acc' = [acc EXCEPT !.conv = 1, !.pmf = 1, !.lut = 2, !.biga = n, !.bigz = n]
  /\ UNCHANGED <<n, m, B, k, src, mini, prev, next, i>>

Next == Jump \/ Exit \/ Land \/ Final
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Answered == pc = "done" => dest[n] = CountDef(n, m, <<>>, B)
MiniFits == Cardinality(DOMAIN mini) <= k                \* the code allocates k entries
Progress == pc = "exits" => prev < next
(* After a landing, src holds exactly the placements of s points into the cells up to
   B_(prev+1) that have respected all bounds so far. *)
Prefix(s, q) == Cardinality({f \in [1..s -> 1..At(q)] :
   \A x \in 0..q : Cardinality({y \in 1..s : f[y] <= At(x)}) > x})
Landed == (pc \in {"jump", "final"} /\ prev >= 0) =>
          \A s \in 0..n : src[s] = (IF At(prev) = 0 THEN 0 ELSE Prefix(s, prev))
Terminates == (ENABLED Next) \/ pc = "done"
(* Without numbers this is the machine for which Apalache shows, without a bound on n and k, that all accesses are inside. *)
Index == INSTANCE JumpIndex WITH conv <- acc.conv, pmf <- acc.pmf, lut <- acc.lut, biga <- acc.biga, bigz <- acc.bigz,
                                 minia <- acc.minia, miniz <- acc.miniz, list <- acc.list
IsIndex == Index!Spec
=============================================================================
