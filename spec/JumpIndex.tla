------------------------------ MODULE JumpIndex -----------------------------
(* Which entries of its arrays the algorithm ecdf1-new touches, for every  *)
(* n >= 1 and every jump size 1 <= k <= n: the indices of JumpAlg, without *)
(* its numbers, so that Apalache can show by induction that all accesses   *)
(* are inside, without a bound on n or k.                                  *)
(* An access is the range a..z of one array, empty if z < a.               *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  k,
  \* @type: Int;
  prev,
  \* @type: Int;
  next,
  \* @type: Int;
  i,
  \* @type: Str;
  pc,
  \* @type: Int;
  conv,       \* size of the last convolution
  \* @type: Int;
  pmf,        \* last entry filled by the generator
  \* @type: Int;
  lut,        \* last factorial looked up by it
  \* @type: Int;
  bigz,       \* last entry touched in the buffers of n + 1 entries
  \* @type: Int;
  biga,       \* first entry
  \* @type: Int;
  minia,      \* the same for the buffers of k entries
  \* @type: Int;
  miniz,
  \* @type: Int;
  list        \* B_(list + 1) is read
vars == <<n, k, prev, next, i, pc, conv, pmf, lut, biga, bigz, minia, miniz, list>>

Min(x, y) == IF x < y THEN x ELSE y
Init == /\ n \in Nat /\ k \in Nat /\ 1 <= k /\ k <= n
        /\ prev = -1 /\ next = Min(k - 1, n - 1) /\ i = 0 /\ pc = "jump"
        /\ conv = 0 /\ pmf = 0 /\ lut = 0 /\ biga = 0 /\ bigz = -1 /\ minia = 0 /\ miniz = -1 /\ list = 0

Jump ==
  /\ pc = "jump"
  /\ conv' = n - prev /\ pmf' = n - prev /\ lut' = n - prev + 1
  /\ biga' = 0 /\ bigz' = n              \* reads src[prev + 1 ..], fills dest[0 .. next] and dest[next + 1 .. n]
  /\ minia' = 0 /\ miniz' = next - prev - 1
  /\ list' = next
  /\ i' = prev + 1 /\ pc' = "exits"
  /\ UNCHANGED <<n, k, prev, next>>
Exit ==
  /\ pc = "exits" /\ i < next
  /\ conv' = next - i + 1 /\ pmf' = next - i + 1
  /\ lut' = n - i + 1                    \* for every count up to n
  /\ minia' = i - prev - 1 /\ miniz' = (i - prev - 1) + (next - i)
  /\ biga' = next + 1 /\ bigz' = n
  /\ list' = i /\ i' = i + 1
  /\ UNCHANGED <<n, k, prev, next, pc>>
Land ==
  /\ pc = "exits" /\ i >= next
  /\ prev' = next /\ next' = Min(next + k, n - 1)
  /\ pc' = (IF next = n - 1 THEN "final" ELSE "jump")
  /\ i' = 0
  /\ UNCHANGED <<n, k, conv, pmf, lut, biga, bigz, minia, miniz, list>>
Final ==
  /\ pc = "final" /\ pc' = "done"
  /\ conv' = 1 /\ pmf' = 1 /\ lut' = 2 /\ biga' = n /\ bigz' = n
  /\ UNCHANGED <<n, k, prev, next, i, minia, miniz, list>>
Next == Jump \/ Exit \/ Land \/ Final
Spec == Init /\ [][Next]_vars

Inside == /\ 0 <= conv /\ conv <= n + 1
          /\ 0 <= pmf /\ pmf <= n + 1                    \* n + 2 entries
          /\ 0 <= lut /\ lut <= n + 2                    \* n + 3 entries
          /\ 0 <= biga /\ bigz <= n
          /\ 0 <= minia /\ miniz <= k - 1
          /\ 0 <= list /\ list <= n - 1
IndInv == /\ 1 <= k /\ k <= n
          /\ -1 <= prev /\ prev <= n - 1
          /\ pc \in {"jump", "exits", "final", "done"}
          /\ pc \in {"jump", "exits"} => prev < next /\ next <= n - 1 /\ next - prev <= k
          /\ pc = "exits" => prev + 1 <= i
          /\ pc = "final" => prev = n - 1
          /\ Inside
IndInit == /\ n \in Int /\ k \in Int /\ prev \in Int /\ next \in Int /\ i \in Int
           /\ pc \in {"jump", "exits", "final", "done"}
           /\ conv \in Int /\ pmf \in Int /\ lut \in Int /\ biga \in Int /\ bigz \in Int
           /\ minia \in Int /\ miniz \in Int /\ list \in Int
           /\ IndInv
=============================================================================
