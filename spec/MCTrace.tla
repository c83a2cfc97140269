------------------------------ MODULE MCTrace ------------------------------
(* Runs of crossprob_mc against what they estimate.                        *)
(* Events: run (one estimate after N simulations) and spread (estimates    *)
(* with N simulations at many clock times).                                *)
EXTENDS MCEstimate, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
vars == <<s, l>>

Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s

Run    == Is("run") /\ LET p == Prob(Ev) IN Quiet(Estimate(FromNat(Ev.N), Ev.out, p[1], p[2]))
Spread1 == Is("spread") /\ LET p == Prob(Ev)
                           IN Quiet(/\ \A k \in DOMAIN Ev.vs : Estimate(FromNat(Ev.N), Ev.vs[k], p[1], p[2])
                                    /\ Spread2(Ev, p[1], p[2]))

Init == s \in 1..Len(Trace) /\ l = 0
Next == Run \/ Spread1
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
