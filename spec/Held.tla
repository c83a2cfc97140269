------------------------------- MODULE Held -------------------------------
(* What a process holds.  A call takes resources step by step (buffers,    *)
(* plans, open files), may fail before any of them, and gives back what it *)
(* took when it leaves, by return or by exception; but it may keep         *)
(*    "nothing"                                                            *)
(*    "its own"    a table or plan, for the next call of the same kind     *)
(*    "the last"   something until the next call of whatever kind          *)
(*    "more"       one more thing every time: a leak                       *)
(* A round is one call of every kind, with the same endings every time, in *)
(* any order but for the last one, which is always the same.  What was     *)
(* held after each round tells leaks from memory that is put to use again: *)
(* see Grows.  (With the last call free this would be wrong: what it keeps *)
(* could be little early and much late.)                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kinds, Closing, MaxSteps, Rounds
VARIABLES steps, fails,     \* of a kind: how many resources it takes, before which it fails (0: it does not)
          keeps,            \* of a kind: what it keeps
          todo,             \* kinds still to be called in this round
          call, held,       \* the current call (0: none), resources of it
          own, last, lost,  \* kept: by kinds, by the last call, for ever
          after             \* what was held at the end of every round
vars == <<steps, fails, keeps, todo, call, held, own, last, lost, after>>

Init == /\ steps \in [Kinds -> 1..MaxSteps]
        /\ keeps \in [Kinds -> {"nothing", "its own", "the last", "more"}]
        /\ fails \in {f \in [Kinds -> 0..MaxSteps] : \A k \in Kinds : f[k] <= steps[k]}
        /\ todo = Kinds /\ call = 0 /\ held = 0 /\ own = {} /\ last = 0 /\ lost = 0 /\ after = <<>>
Enter == /\ call = 0 /\ \E k \in todo : (k = Closing => todo = {k}) /\ call' = k /\ todo' = todo \ {k}
         /\ held' = 0 /\ last' = 0 /\ UNCHANGED <<steps, fails, keeps, own, lost, after>>
Take  == /\ call # 0 /\ held < steps[call] /\ held + 1 # fails[call]
         /\ held' = held + 1 /\ UNCHANGED <<steps, fails, keeps, todo, call, own, last, lost, after>>
Leave == /\ call # 0 /\ (held = steps[call] \/ held + 1 = fails[call])
         /\ own' = (IF keeps[call] = "its own" THEN own \cup {call} ELSE own)
         /\ last' = (IF keeps[call] = "the last" THEN held ELSE 0)
         /\ lost' = (IF keeps[call] = "more" THEN lost + 1 ELSE lost)
         /\ held' = 0 /\ call' = 0 /\ UNCHANGED <<steps, fails, keeps, todo, after>>
Holds == Cardinality(own) + last + lost + held
EndRound == /\ call = 0 /\ todo = {} /\ Len(after) < Rounds
            /\ after' = Append(after, Holds) /\ todo' = Kinds
            /\ UNCHANGED <<steps, fails, keeps, call, held, own, last, lost>>
Next == Enter \/ Take \/ Leave \/ EndRound
Spec == Init /\ [][Next]_vars

(* The process holds more and more: every time late in the session more    *)
(* than at any time early in it, after the first rounds, which fill what   *)
(* is kept for later calls.                                                *)
Warm == 2
Early(n) == (Warm + 1)..(n \div 3)
Late(n)  == ((2 * n) \div 3)..n
Grows(a, slack) == \A i \in Early(Len(a)), j \in Late(Len(a)) : a[j] > a[i] + slack

Leaks == \E k \in Kinds : keeps[k] = "more"
(* The verdict is right, whatever the calls keep, in whatever order they come. *)
Verdict == Len(after) = Rounds => (Grows(after, 0) <=> Leaks)
=============================================================================
