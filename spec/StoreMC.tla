------------------------------ MODULE StoreMC ------------------------------
(* The model checked by itself, with a bounded history that is written out *)
(* as a test of the code.                                                  *)
EXTENDS Store, IOUtils
VARIABLE h
Length == atoi(IOEnv.LENGTH)
Init == StoreInit /\ h = <<>>
Next == Len(h) < Length /\ StoreNext /\ h' = Append(h, answer')
MCSpec == Init /\ [][Next]_<<store, answer, h>>
Write == Len(h) = Length => PrintT("HISTORY " \o ToString(h))
Separate2 == [][\A n \in Names : store'[n] # store[n] => answer'[1] = "dumped" /\ answer'[2] = n]_<<store, answer, h>>
=============================================================================
