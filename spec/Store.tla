------------------------------- MODULE Store -------------------------------
(* The store of named results of the benchmarks.  Names and values are     *)
(* numbers; a value stands for a set of fields.                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Names, Values
Nothing == 0
VARIABLES store,     \* name -> the value dumped last, or Nothing
          answer     \* of the last operation
TypeOK == store \in [Names -> Values \cup {Nothing}]

Dump(n, v) == store' = [store EXCEPT ![n] = v] /\ answer' = <<"dumped", n, v>>
Load(n)    == /\ store' = store
              /\ answer' = IF store[n] = Nothing THEN <<"error", n, 0>> ELSE <<"loaded", n, store[n]>>
StoreInit == store = [n \in Names |-> Nothing] /\ answer = <<"none", 0, 0>>
StoreNext == \E n \in Names : Load(n) \/ \E v \in Values : Dump(n, v)

(* Dumps under other names do not matter, loads change nothing. *)
Separate == [][\A n \in Names : store'[n] # store[n] => answer'[1] = "dumped" /\ answer'[2] = n]_<<store, answer>>
Faithful == answer[1] \in {"loaded", "dumped"} => store[answer[2]] = answer[3]
Spec == StoreInit /\ [][StoreNext]_<<store, answer>>
=============================================================================
