---------------------------- MODULE Questions ----------------------------
(* Enumerates all questions on small grids, as tests of the code.  The     *)
(* environment says which and where to write them: one file for each       *)
(* lengths n, k of the two lists and grid size m.                          *)
EXTENDS Crossing, Json, IOUtils, SequencesExt, TLC
MaxN == atoi(IOEnv.MAXN)
MaxM == atoi(IOEnv.MAXM)

Mono(len, top) == {q \in [1..len -> 0..top] : \A i \in 1..(len-1) : q[i] <= q[i+1]}
(* Values below 0 are -1, above 1 are top+1. *)
Wild(len, top) == [1..len -> (-1)..(top + 1)]
Lists(len, top) == IF IOEnv.VALID = "1" THEN Mono(len, top) ELSE Wild(len, top)
Lengths == IF IOEnv.KIND = "singles" THEN {<<n, 0>> : n \in 0..MaxN}
           ELSE IF IOEnv.VALID = "1" THEN {<<n, n>> : n \in 0..MaxN}
           ELSE (0..MaxN) \X (0..MaxN)
Questions(nk, m) == {[m |-> m, b |-> Runs(b), B |-> Runs(B)] : b \in Lists(nk[1], m), B \in Lists(nk[2], m)}

VARIABLES todo
Init == todo \in {<<nk, m>> : nk \in Lengths, m \in 1..MaxM}
Next == /\ todo # <<>> /\ todo' = <<>>
        /\ ndJsonSerialize(IOEnv.OUT \o "/" \o ToString(todo[1][1]) \o "." \o ToString(todo[1][2]) \o "." \o ToString(todo[2]),
                           SetToSeq(Questions(todo[1], todo[2])))
=============================================================================
