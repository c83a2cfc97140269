------------------------------ MODULE CliCases ------------------------------
(* Builds command lines, one choice after the other, and writes the        *)
(* complete ones to files.  A choice is "good" or departs from it; the     *)
(* harness spells it out.  At most MAXODD choices of a command line        *)
(* depart, so that every pair of departures is met.                        *)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, TLC
MaxOdd == atoi(IOEnv.MAXODD)
MaxLen == atoi(IOEnv.MAXLEN)

Algorithms == {"ecdf1-mns2016", "ecdf1-new", "ecdf2-ks2001", "ecdf2-mn2017"}
Commands(p) == (IF p = "crossprob" THEN Algorithms ELSE {"ecdf", "poisson"})
Options(p) ==
  [argc  |-> 0..5,
   cmd   |-> Commands(p) \cup {"bad"},
   file  |-> {"good", "none", "short", "badfield", "nofield", "loosefield", "odd"},
   lists |-> {"good", "order", "low", "high"},
   side  |-> {"b", "B"},
   n     |-> 0..MaxLen,
   k     |-> 0..MaxLen,
   count |-> IF p = "crossprob" THEN {"good"} ELSE {"good", "bad", "minus", "loose", "large"}]
Order == <<"argc", "cmd", "file", "lists", "side", "n", "k", "count">>

Odd(p, what, c) == CASE what = "argc" -> c # (IF p = "crossprob" THEN 2 ELSE 3)
                     [] what = "cmd" -> c = "bad"
                     [] what \in {"file", "lists", "count"} -> c # "good"
                     [] OTHER -> FALSE
Oddities(x) == Cardinality({i \in DOMAIN x.made : Odd(x.prog, Order[i], x.made[i])})

(* Options that make no difference are not varied. *)
Idle(x, what, c) ==
  CASE what = "lists" -> c # "good" /\ x.made[3] # "good"
    [] what = "side"  -> c = "B" /\ x.made[4] = "good" /\ x.made[3] \notin {"badfield", "nofield", "loosefield", "odd"}
    [] what = "k"     -> LET len == IF x.made[5] = "b" THEN x.made[6] ELSE c
                         IN (x.made[4] = "order" /\ len < 2) \/ (x.made[4] \in {"low", "high"} /\ len < 1)
                            \/ (x.made[3] \in {"badfield", "nofield", "loosefield", "odd"} /\ len < 1)
    [] OTHER -> FALSE

VARIABLE x
Init == x \in {[prog |-> p, made |-> <<>>] : p \in {"crossprob", "crossprob_mc"}}
Choose(c) == LET what == Order[Len(x.made) + 1]
                 y == [x EXCEPT !.made = Append(@, c)]
             IN /\ ~Idle(x, what, c)
                /\ Oddities(y) <= MaxOdd
                /\ x' = y
Next == Len(x.made) < Len(Order) /\ \E c \in Options(x.prog)[Order[Len(x.made) + 1]] : Choose(c)
Spec == Init /\ [][Next]_x
(* evaluated once for every complete command line *)
Write == Len(x.made) = Len(Order) =>
           LET r == [i \in {"prog"} \cup {Order[j] : j \in DOMAIN Order} |->
                       IF i = "prog" THEN x.prog ELSE x.made[CHOOSE j \in DOMAIN Order : Order[j] = i]]
           IN PrintT(<<"CASE", r.prog, r.argc, r.cmd, r.file, r.lists, r.side, r.n, r.k, r.count>>)
=============================================================================
