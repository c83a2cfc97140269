------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the programs, in sessions of one after another.        *)
EXTENDS Cli, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Run  == l < Len(Trace[s].ev) /\ Quiet(RightRun(Ev)) /\ l' = l + 1 /\ s' = s
Init == s \in 1..Len(Trace) /\ l = 0
Next == Run
Spec == Init /\ [][Next]_<<s, l>>
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
