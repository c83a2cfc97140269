------------------------------- MODULE MCRuns -------------------------------
(* Which Monte-Carlo runs must print the same and which must not.          *)
(* A run is [cmd, text, N, clock, out]: text names the contents of the     *)
(* boundary file, clock is the second at which the run starts.  Other      *)
(* things (name of the file, working directory, contents of fresh memory,  *)
(* what ran before) differ between the runs.                               *)
(* The state remembers what was printed for each [cmd, text, N, clock].    *)
EXTENDS Integers, Sequences, FiniteSets, Functions, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, known
vars == <<s, l, known>>
Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Key(e) == <<e.cmd, e.text, e.N, e.clock>>
Clocks(e) == {k \in DOMAIN known : k[1] = e.cmd /\ k[2] = e.text /\ k[3] = e.N}

Run == /\ l < Len(Trace[s].ev) /\ Ev.t = "run"
       /\ Quiet(Ev.ok = 1 /\ (Key(Ev) \in DOMAIN known => known[Key(Ev)] = Ev.out))
       /\ l' = l + 1 /\ s' = s /\ known' = known @@ (Key(Ev) :> Ev.out)
(* The end of a group: the estimates of the last question at many clock times.  Two of them agree by
   chance only rarely, so most of them differ. *)
Varied == /\ l < Len(Trace[s].ev) /\ Ev.t = "varied"
          /\ LET K == Clocks(Ev) IN Quiet(3 * Cardinality({known[k] : k \in K}) >= 2 * Cardinality(K))
          /\ l' = l + 1 /\ UNCHANGED <<s, known>>

(* Two clock times at which the same six or more questions were asked, each with an answer that two samples
   share with probability 1/30 or less: not all of the answers are the same. *)
Differ == /\ l < Len(Trace[s].ev) /\ Ev.t = "differ"
          /\ LET Q == {<<k[1], k[2], k[3]>> : k \in {j \in DOMAIN known : j[4] = Ev.clock}}
             IN Quiet(/\ Cardinality(Q) >= 6
                      /\ \A q \in Q : q \o <<Ev.other>> \in DOMAIN known
                      /\ \E q \in Q : known[q \o <<Ev.clock>>] # known[q \o <<Ev.other>>])
          /\ l' = l + 1 /\ UNCHANGED <<s, known>>

Init == s \in 1..Len(Trace) /\ l = 0 /\ known = <<>>
Next == Run \/ Varied \/ Differ
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
