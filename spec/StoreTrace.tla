----------------------------- MODULE StoreTrace -----------------------------
(* Recorded sessions of dumps and loads, checked against Store.  Events:   *)
(*   dump n v out    out is "ok", or "error" for values that cannot be     *)
(*                   dumped (v = Unfit), after which nothing is known      *)
(*   load n out v    out is "ok" with the value, or "error"                *)
EXTENDS Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Unfit == 99
Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s
Dumps == Is("dump") /\ Quiet(Ev.out = IF Ev.v = Unfit THEN "error" ELSE "ok") /\ Dump(Ev.n, Ev.v)
Loads == Is("load") /\ Load(Ev.n)
         /\ Quiet(IF store[Ev.n] = Unfit THEN TRUE
                  ELSE IF store[Ev.n] = Nothing THEN Ev.out = "error"
                  ELSE Ev.out = "ok" /\ Ev.v = store[Ev.n])
Init == StoreInit /\ s \in 1..Len(Trace) /\ l = 0
Next == Dumps \/ Loads
TSpec == Init /\ [][Next]_<<store, answer, s, l>>
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
