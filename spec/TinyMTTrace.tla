---------------------------- MODULE TinyMTTrace ----------------------------
(* Recorded histories of generators.  The state holds the state of each    *)
(* generator.  Draws come in batches of one kind.                          *)
EXTENDS TinyMT, Numbers, Functions, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, gens
vars == <<s, l, gens>>

Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s

Start == /\ Is("init") \/ Is("array")
         /\ Quiet(Ev.out.k = "ok" /\ Ev.out.zero = 0)
         /\ gens' = (Ev.obj :> IF Ev.t = "init" THEN Seeded(Ev, Ev.seed) ELSE SeededByArray(Ev, Ev.keys)) @@ gens

InPromise(kind, v) ==
  CASE kind \in {"d01", "double"} -> v.neg = 0 /\ LT(v.num, v.den)
    [] kind = "d12" -> v.neg = 0 /\ LE(v.den, v.num) /\ LT(v.num, Shl(v.den, 1))
    [] kind = "dOC" -> v.neg = 0 /\ LE(v.num, v.den) /\ v.num # <<>>
    [] kind = "dOO" -> v.neg = 0 /\ LT(v.num, v.den) /\ v.num # <<>>
    [] OTHER -> TRUE
RightNumber(kind, v, g) ==
  LET d == Drawn(kind, g)
      x == Mul(v.num, d[2])
      y == Mul(d[1], v.den)
  IN /\ v.k = "value" /\ v.neg = 0
     /\ IF kind = "double" THEN LE(Shl(Diff(x, y), 53), Mul(d[2], v.den)) ELSE x = y      \* "double" is rounded, to either side
     /\ InPromise(kind, v)

RECURSIVE After(_, _, _, _)
After(g, kind, vs, i) ==          \* the state after the draws, or <<>> if one of them is wrong
  IF i > Len(vs) THEN g
  ELSE LET h == NextState(g)
       IN IF ~AllZero(h) /\ RightNumber(kind, vs[i], h) THEN After(h, kind, vs, i + 1) ELSE <<>>

Draw == /\ Is("draw")
        /\ LET g == IF Ev.out.k = "values" /\ Ev.out.zero = 0 /\ Len(Ev.out.v) = Ev.count
                    THEN After(gens[Ev.obj], Ev.kind, Ev.out.v, 1) ELSE <<>>
           IN Quiet(g # <<>>) /\ gens' = [gens EXCEPT ![Ev.obj] = g]

Init == s \in 1..Len(Trace) /\ l = 0 /\ gens = <<>>
Next == Start \/ Draw
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
