----------------------------- MODULE SweepIndex -----------------------------
(* Which entries of its arrays the two-sided algorithm touches, for every  *)
(* n and every pair of lists: only numbers of steps and indices are left   *)
(* of SweepAlg, so that Apalache can show by induction that all accesses   *)
(* are inside, without a bound on n.                                       *)
(* Boundaries at one location make a group, swept in any order: of those   *)
(* up to there, th are b_i and tl are B_i, and tl <= th since b_i <= B_i.  *)
(* The first step to a group convolves, the others are in place.           *)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  hi,         \* b_i swept
  \* @type: Int;
  lo,         \* B_i swept
  \* @type: Int;
  th,
  \* @type: Int;
  tl,
  \* @type: Int;
  size,       \* counts convolved by the last step, from "from" on; -1 if it was in place
  \* @type: Int;
  from,
  \* @type: Int;
  zeroed,     \* entry set to zero by the last step, -1 if none
  \* @type: Bool;
  done
vars == <<n, hi, lo, th, tl, size, from, zeroed, done>>

Init == /\ n \in Nat
        /\ hi = 0 /\ lo = 0 /\ th = 0 /\ tl = 0
        /\ size = -1 /\ from = 0 /\ zeroed = -1 /\ done = FALSE

Convolve == size' = hi - lo + 1 /\ from' = lo
InPlace  == size' = -1 /\ from' = lo
CrossB == hi' = hi + 1 /\ zeroed' = hi + 1 /\ UNCHANGED lo
CrossU == lo' = lo + 1 /\ zeroed' = lo /\ UNCHANGED hi

Arrive ==     \* the first boundary of the next location; at 0 there is nothing to convolve
  /\ ~done /\ hi = th /\ lo = tl
  /\ \E x \in 0..n, y \in 0..n :
       /\ th <= x /\ tl <= y /\ y <= x
       /\ th' = x /\ tl' = y
       /\ (x > hi /\ CrossB) \/ (y > lo /\ CrossU)
  /\ Convolve \/ InPlace
  /\ UNCHANGED <<n, done>>
Tie ==
  /\ ~done
  /\ (hi < th /\ CrossB) \/ (lo < tl /\ CrossU)
  /\ InPlace
  /\ UNCHANGED <<n, th, tl, done>>
Finish ==
  /\ ~done /\ hi = n /\ lo = n /\ th = n /\ tl = n
  /\ Convolve \/ InPlace
  /\ zeroed' = -1 /\ done' = TRUE
  /\ UNCHANGED <<n, hi, lo, th, tl>>
Next == Arrive \/ Tie \/ Finish
Spec == Init /\ [][Next]_vars

(* n + 1 entries in both buffers, n + 2 in the array of the generator (which fills one more than asked for), n + 1 for
   the convolver. *)
Inside == /\ size >= 0 => size >= 1 /\ from >= 0 /\ from + size - 1 <= n /\ size <= n + 1
          /\ zeroed >= -1 /\ zeroed <= n
IndInv == /\ n >= 0 /\ 0 <= lo /\ lo <= tl /\ tl <= th /\ th <= n /\ 0 <= hi /\ hi <= th
          /\ size >= -1 /\ from >= 0 /\ zeroed >= -1
          /\ done \in BOOLEAN
          /\ Inside
(* For a check of one step from any state in which IndInv holds. *)
IndInit == /\ n \in Int /\ hi \in Int /\ lo \in Int /\ th \in Int /\ tl \in Int
           /\ size \in Int /\ from \in Int /\ zeroed \in Int /\ done \in BOOLEAN
           /\ IndInv
=============================================================================
