----------------------------- MODULE FileTrace -----------------------------
(* Recorded sessions of reading boundary files, one after another.         *)
(*   text   the contents of the file and what was read                     *)
(*   odd    the same, with numbers of other kinds (inf, nan, 0x10) in it  *)
(*   none   a name that is no readable file                                *)
EXTENDS BoundaryFile, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
vars == <<s, l>>
Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s
Read == Is("text") /\ Quiet(Right(Ev.text, Ev.out))
Odd  == Is("odd") /\ Quiet(Ev.out.k \in {"error", "lists", "nan"})
None == Is("none") /\ Quiet(Ev.out.k = "error")
Init == s \in 1..Len(Trace) /\ l = 0
Next == Read \/ Odd \/ None
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
