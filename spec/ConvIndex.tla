------------------------------ MODULE ConvIndex -----------------------------
(* Which entries of its buffers the convolver touches, for every maximum   *)
(* size M and every history of sizes: ConvAlg without contents, so that    *)
(* Apalache can show by induction that all accesses are inside, without a  *)
(* bound on M.                                                             *)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  R,
  \* @type: Int;
  Naive
VARIABLES
  \* @type: Int;
  M,
  \* @type: Int;
  length,     \* of the transform of the last request, 0 if there was none
  \* @type: Int;
  last        \* size of the last request
\* @type: <<Int, Int, Int>>;
vars == <<M, length, last>>
RoundUp(x) == ((x + R - 1) \div R) * R
ConstInit == R = 2048 /\ Naive = 128

Init == M \in Nat /\ length = 0 /\ last = 0
Next == /\ M' = M /\ last' \in Int
        /\ length' = IF 0 < last' /\ last' <= M /\ last' >= Naive THEN RoundUp(2 * last') ELSE 0
Spec == Init /\ [][Next]_vars

Inside == length > 0 => /\ last <= M                              \* numbers written to the output
                        /\ length <= RoundUp(2 * M)               \* numbers touched in the four buffers
                        /\ length \div 2 + 1 <= RoundUp(2 * M)    \* complex numbers
                        /\ length % R = 0 /\ length \div R >= 1 /\ length \div R <= RoundUp(2 * M) \div R     \* place of the plan
                        /\ last <= length                         \* the input fits, padded with zeros
                        /\ 2 * (last - 1) < length                \* and nothing wraps around
IndInv == M >= 0 /\ length >= 0 /\ Inside
IndInit == M \in Int /\ length \in Int /\ last \in Int /\ IndInv
=============================================================================
