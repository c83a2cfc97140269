------------------------------ MODULE ConvAlg ------------------------------
(* Why the convolver's buffers suffice, for every history of sizes.        *)
(* One object of maximum size M; the transform length is 2s rounded up to  *)
(* a multiple of R (2048 in the code).  The input and output buffers       *)
(* remember which request wrote each cell.  A plan for each length is made *)
(* on first use and kept.                                                  *)
EXTENDS Integers, FiniteSets
CONSTANTS R, Naive, MaxM, MaxRequests
RoundUp(x) == ((x + R - 1) \div R) * R

VARIABLES M, plans, in, out, req, size, ok
vars == <<M, plans, in, out, req, size, ok>>
(* in[c]: 0 holds zero, r > 0 written by request r *)
Padded == RoundUp(2 * M)

Init == /\ M \in 0..MaxM
        /\ plans = {} /\ in = [c \in 0..(Padded - 1) |-> 0] /\ out = [c \in 0..(Padded - 1) |-> 0]
        /\ req = 0 /\ size = 0 /\ ok = TRUE

Refuse(s) == s > M /\ UNCHANGED <<plans, in, out>> /\ ok' = TRUE
Nothing(s) == s <= 0 /\ s <= M /\ UNCHANGED <<plans, in, out>> /\ ok' = TRUE
Direct(s) == 0 < s /\ s <= M /\ s < Naive /\ UNCHANGED <<plans, in, out>> /\ ok' = TRUE
Fft(s) ==
  /\ s >= Naive /\ s <= M /\ s > 0
  /\ LET P == RoundUp(2 * s)
         idx == P \div R - 1
         filled == [c \in 0..(Padded - 1) |-> IF c < s THEN req + 1 ELSE IF c < P THEN 0 ELSE in[c]]
     IN /\ plans' = plans \cup {P}
        /\ in' = filled                            \* read up to P, destroyed by the transform
        /\ out' = [c \in 0..(Padded - 1) |-> IF c < P THEN req + 1 ELSE out[c]]
        /\ ok' = /\ idx >= 0 /\ idx < Padded \div R            \* the memo has a place for the plan
                 /\ P <= Padded                                \* everything touched is inside of the buffers
                 /\ \A c \in 0..(P - 1) : filled[c] \in {0, req + 1}
                 /\ \A c \in s..(P - 1) : filled[c] = 0
                 \* circular convolution of length P is linear on the first s outputs
                 /\ \A i \in 0..(s - 1), j \in 0..(s - 1) : i + j >= P => (i + j) - P >= s
                 /\ \A c \in 0..(s - 1) : out'[c] = req + 1

Next == /\ req < MaxRequests /\ M' = M /\ req' = req + 1
        /\ \E s \in (-1)..(MaxM + 1) : size' = s /\ (Refuse(s) \/ Nothing(s) \/ Direct(s) \/ Fft(s))
Spec == Init /\ [][Next]_vars
Good == ok
(* The machine without contents, for which Apalache shows without a bound that everything touched is inside. *)
Index == INSTANCE ConvIndex WITH last <- size, length <- IF 0 < size /\ size <= M /\ size >= Naive THEN RoundUp(2 * size) ELSE 0
IsIndex == Index!Spec
=============================================================================
