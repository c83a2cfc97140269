----------------------------- MODULE ConvTrace -----------------------------
(* Recorded histories of convolver objects.                                *)
(* The state says which objects exist and their maximum sizes.  A request  *)
(* carries its inputs: a sparse, as <<position, value>>, positions from 0, *)
(* and b dense, both integers (times a power of 2 that the harness takes   *)
(* off again), and the recorded outcome: the outputs y as nearest integers *)
(* and far, the largest distance to them in units of 10^-9.                *)
EXTENDS Integers, Sequences, FiniteSets, Functions, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, objs
vars == <<s, l, objs>>

Abs(x) == IF x < 0 THEN -x ELSE x
(* the terms i..k of output j *)
RECURSIVE SumAt(_, _, _, _, _)
SumAt(a, b, j, i, k) ==
  IF i > k THEN 0
  ELSE IF i = k THEN (IF a[k][1] <= j THEN a[k][2] * b[j - a[k][1] + 1] ELSE 0)
  ELSE LET h == (i + k) \div 2 IN SumAt(a, b, j, i, h) + SumAt(a, b, j, h + 1, k)
(* output j (from 0) of the linear convolution *)
ConvAt(a, b, j) == SumAt(a, b, j, 1, Len(a))
RECURSIVE SumAbs(_, _, _)
SumAbs(a, i, k) == IF i > k THEN 0 ELSE IF i = k THEN Abs(a[k][2])
                   ELSE LET h == (i + k) \div 2 IN SumAbs(a, i, h) + SumAbs(a, h + 1, k)
MaxAbs(b) == IF b = <<>> THEN 0 ELSE CHOOSE x \in {Abs(b[i]) : i \in 1..Len(b)} : \A i \in 1..Len(b) : Abs(b[i]) <= x

Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s

Create == Is("new") /\ Quiet(Ev.out.k = "ok") /\ objs' = (Ev.obj :> Ev.M) @@ objs
Destroy == Is("del") /\ Quiet(Ev.out.k = "ok") /\ Ev.obj \in DOMAIN objs
           /\ objs' = [o \in DOMAIN objs \ {Ev.obj} |-> objs[o]]

(* positions at which the outputs are compared: all, or those named *)
Places(e) == IF e.at = <<>> THEN 0..(e.size - 1) ELSE {e.at[i] : i \in 1..Len(e.at)}
Request ==
  /\ Is("conv") /\ UNCHANGED objs
  /\ LET e == Ev
         M == objs[e.obj]
     IN Quiet(IF e.size > M THEN e.out.k = "error"
              ELSE /\ e.out.k = "value"
                   /\ Len(e.out.y) = (IF e.size > 0 THEN e.size ELSE 0)
                   /\ e.size > 0 =>
                        /\ \A j \in Places(e) : e.out.y[j + 1] = ConvAt(e.a, e.b, j)
                        /\ e.out.far <= 1 + SumAbs(e.a, 1, Len(e.a)) * MaxAbs(e.b))

Init == s \in 1..Len(Trace) /\ l = 0 /\ objs = <<>>
Next == Create \/ Destroy \/ Request
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
