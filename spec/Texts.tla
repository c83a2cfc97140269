------------------------------- MODULE Texts -------------------------------
(* Enumerates short boundary files as sequences of tokens.  The token set  *)
(* and the length are given by the environment; each sequence is a list of *)
(* token numbers, to be read as the concatenation of their spellings.      *)
EXTENDS Integers, Sequences, Json, IOUtils, SequencesExt, TLC
K == atoi(IOEnv.TOKENS)
VARIABLES todo
Init == todo \in {<<n, f>> : n \in 0..atoi(IOEnv.LENGTH), f \in 1..K}
Next == /\ todo # <<>> /\ todo' = <<>>
        /\ (todo[1] > 0 \/ todo[2] = 1) =>
             ndJsonSerialize(IOEnv.OUT \o "/" \o ToString(todo[1]) \o "." \o ToString(todo[2]),
               SetToSeq(IF todo[1] = 0 THEN {[x |-> <<>>]} ELSE
                        {[x |-> <<todo[2]>> \o q] : q \in [1..(todo[1] - 1) -> 1..K]}))
=============================================================================
