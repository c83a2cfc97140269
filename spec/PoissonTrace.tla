---------------------------- MODULE PoissonTrace ----------------------------
(* Recorded histories of requests for Poisson probabilities.               *)
(* The state says which generators exist, their sizes, and the last array  *)
(* request of each.  Rates are exact fractions lam = [neg, num, den].      *)
(* Recorded answers are sequences of numbers as in Numbers.                *)
EXTENDS Exp, Numbers, Functions, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, objs
vars == <<s, l, objs>>

Tiny == [neg |-> 0, num |-> <<2>>, den |-> Ten(290)]
(* v is e^-lam lam^k / k!, e being e^lam *)
IsWeight(v, k, lam, e) ==
  LET C == Shl(Pow(lam.num, k), W)
      T == Mul(Mul(Pow(lam.den, k), Fact(k)), e)
  IN /\ v.k = "value"
     /\ WithinRel(v, C, T, 9, 290)
     /\ LE(Mul(C, Ten(290)), T) => AtMost(v, Tiny, 320) /\ AtMost(Zero, v, 320)
(* Weights decrease in lam for lam >= k, and that of lam = 50000, k = 10^4 is below 10^-10000. *)
Huge(lam) == LE(Mul(FromNat(50000), lam.den), lam.num)
Vanishes(v, k) == /\ Assert(k <= 10000, "k is limited")
                  /\ v.k = "value" /\ AtMost(v, Tiny, 320) /\ AtMost(Zero, v, 320)
Weights(vs, ks, lam) ==
  IF Huge(lam) THEN \A i \in DOMAIN ks : Vanishes(vs[i], ks[i])
  ELSE IF lam.num = <<>> THEN \A i \in DOMAIN ks : vs[i].k = "value" /\ vs[i].num = (IF ks[i] = 0 THEN vs[i].den ELSE <<>>)
  ELSE LET e == Exp(lam.num, lam.den) IN \A i \in DOMAIN ks : IsWeight(vs[i], ks[i], lam, e)

Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s
None == [k |-> -1]

Create  == Is("new") /\ Quiet(Ev.out.k = "ok") /\ objs' = (Ev.obj :> [max |-> Ev.max, last |-> None]) @@ objs
Destroy == Is("del") /\ Quiet(Ev.out.k = "ok") /\ objs' = [o \in DOMAIN objs \ {Ev.obj} |-> objs[o]]
Array   == /\ Is("array")
           /\ Assert(0 <= Ev.n /\ Ev.n <= objs[Ev.obj].max, "outside of the generator's contract")
           /\ Quiet(Ev.out.k = IF Ev.lam.neg = 1 THEN "error" ELSE "ok")
           /\ objs' = [objs EXCEPT ![Ev.obj].last = IF Ev.lam.neg = 1 THEN None ELSE [k |-> Ev.n, lam |-> Ev.lam]]
Read    == /\ Is("read") /\ UNCHANGED objs
           /\ LET a == objs[Ev.obj].last
              IN /\ Assert(\A i \in DOMAIN Ev.at : Ev.at[i] <= a.k, "outside of the last array")
                 /\ Quiet(Ev.out.k = "values" /\ Weights(Ev.out.v, Ev.at, a.lam))
Evaluate == Is("eval") /\ UNCHANGED objs /\ Ev.obj \in DOMAIN objs
            /\ Quiet(Ev.out.k = "values" /\ Weights(Ev.out.v, Ev.at, Ev.lam))
Single  == Is("single") /\ UNCHANGED objs /\ Quiet(Ev.out.k = "values" /\ Weights(Ev.out.v, Ev.at, Ev.lam))

Init == s \in 1..Len(Trace) /\ l = 0 /\ objs = <<>>
Next == Create \/ Destroy \/ Array \/ Read \/ Evaluate \/ Single
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
