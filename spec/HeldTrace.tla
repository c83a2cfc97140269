----------------------------- MODULE HeldTrace -----------------------------
(* What real processes hold.  Sessions: the calls of Held's rounds, made   *)
(* of real processes.  An event is the end of a round:                     *)
(*    calls, out      how many calls the round had, and how they ended,    *)
(*                    the same in all rounds                               *)
(*    blocks, bytes   allocated memory       files   open files            *)
(* with the session's slack for blocks and bytes (interpreters have free   *)
(* lists of their own).                                                    *)
(*    peak    the most bytes that a program had allocated, asked for       *)
(*            n simulations of the same                                    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, blocks, bytes, files
vars == <<s, l, blocks, bytes, files>>
H == INSTANCE Held WITH Kinds <- {}, Closing <- 0, MaxSteps <- 0, Rounds <- 0, steps <- 0, fails <- 0, keeps <- 0, todo <- {}, call <- 0,
                        held <- 0, own <- {}, last <- 0, lost <- 0, after <- <<>>

Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s
IsLast == l + 1 = Len(Trace[s].ev)
Enough(a) == Len(a) >= 9
Round == /\ Is("round")
         /\ blocks' = Append(blocks, Ev.blocks) /\ bytes' = Append(bytes, Ev.bytes) /\ files' = Append(files, Ev.files)
         /\ Quiet(/\ Ev.out = Trace[s].ev[1].out
                  /\ IsLast => /\ Enough(blocks')
                               /\ ~H!Grows(blocks', Trace[s].slack.blocks)
                               /\ ~H!Grows(bytes', Trace[s].slack.bytes)
                               /\ ~H!Grows(files', 0))
(* A simulation needs no more memory for more repetitions. *)
Peak == /\ Is("peak")
        /\ Quiet(\A i \in 1..l : Ev.n > Trace[s].ev[i].n => Ev.bytes <= Trace[s].ev[i].bytes + Trace[s].slack.bytes)
        /\ UNCHANGED <<blocks, bytes, files>>
Died == Is("died") /\ Quiet(FALSE) /\ UNCHANGED <<blocks, bytes, files>>
Init == s \in 1..Len(Trace) /\ l = 0 /\ blocks = <<>> /\ bytes = <<>> /\ files = <<>>
Next == Round \/ Peak \/ Died
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
