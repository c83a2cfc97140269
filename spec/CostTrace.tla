---------------------------- MODULE CostTrace ----------------------------
(* The work of real calls, counted in machine instructions.  A session is  *)
(* one algorithm and one family of questions, of growing size:             *)
(*   idle  work           what the driver takes by itself                  *)
(*   run   n work out     one question of size n                           *)
(* The work of a run may not exceed a constant times what is documented,   *)
(* and it may not grow faster from one size to the next, in families whose *)
(* windows of possible counts grow with n (wide): in others, the sizes at  *)
(* which the code turns to transforms are met on the way.                  *)
EXTENDS Cost, BigNat, Json, IOUtils, TLC, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, idle, last          \* last: <<n, work>> of the run before, or <<>>
vars == <<s, l, idle, last>>

Ev == Trace[s].ev[l + 1]
Alg == Trace[s].alg
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s

(* Instructions per unit of Growth: four times what an unoptimised build of the code needs. *)
Unit(alg) == CASE alg = "ks" -> 16 [] alg = "fft" -> 140 [] alg \in {"new_b", "new_B"} -> 440 [] OTHER -> 1500
(* From this size on the growth is judged. *)
From(alg) == CASE alg = "ks" -> 200 [] alg \in {"mns_b", "mns_B"} -> 500 [] OTHER -> 1000

Documented(alg, n) == Mul(FromNat(n), FromNat(GrowthPer(alg, n)))
Fits(alg, n, work) == LE(work, Add(idle, Mul(FromNat(Unit(alg)), Documented(alg, n))))
(* work(n) / work(n0) <= 1.7 Growth(n) / Growth(n0) *)
Grows(alg, n0, work0, n, work) ==
  LE(Mul(FromNat(10), Mul(work, Documented(alg, n0))), Mul(FromNat(17), Mul(work0, Documented(alg, n))))

Idle == /\ Is("idle") /\ idle' = Ev.work /\ UNCHANGED last
Run  == /\ Is("run")
        /\ Quiet(/\ Ev.out = "value"
                 /\ Ev.n >= From(Alg) => Fits(Alg, Ev.n, Ev.work)
                 /\ (Trace[s].wide = 1 /\ last # <<>> /\ last[1] >= From(Alg)) => Grows(Alg, last[1], last[2], Ev.n, Ev.work))
        /\ last' = <<Ev.n, Ev.work>> /\ UNCHANGED idle
Init == s \in 1..Len(Trace) /\ l = 0 /\ idle = <<>> /\ last = <<>>
Next == Idle \/ Run
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
