--------------------------- MODULE MnPlusTrace ---------------------------
(* Recorded calls of the functions of benchmarks/exactbj.py.               *)
(*   stat    x T out         statistic of the sample x                     *)
(*   kept    x after         x and what it is after asking for that        *)
(*   works   out             importing the module, using its Timer         *)
(*   outside out             of a sample that is not in [0,1]              *)
(*   bounds  n v b T         Mn_plus_bounds(n, v)                          *)
(*   picks   n len v at T    some <<i, b_i>> of the len bounds             *)
(*   same    out ref         a distribution by another algorithm           *)
(*   dist    n v b T out     Mn_plus_distribution(n, v)                    *)
(*   inv     n alpha v b T out   v = inverse_Mn_plus(n, alpha)             *)
(*   precalc alpha out       thresholds stored for several n               *)
(*   timings alpha out       timings of all algorithms stored for these    *)
(*   stored  alpha ns pairs  what is loaded as thresholds                  *)
(*   results alpha ns all    what is loaded as results                     *)
(*   large   rows                  one threshold for several n, by two       *)
(*                                 algorithms, as loaded afterwards        *)
(* v, x and b are places in units of T.  out is a recorded number.  *)
(* The state is the thresholds found so far.                               *)
EXTENDS MnPlus, Numbers, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, found
vars == <<s, l, found>>

Ev == Trace[s].ev[l + 1]
Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s

Increasing(b) == \A i \in 1..(Len(b) - 1) : LE(b[i], b[i + 1])
IsNumber(o) == o.k = "value"
\* |x - y| <= y / 10^9 + T / 10^300
Close(x, y, T) == LE(Mul(Ten(300), Mul(Ten(9), Diff(x, y))), Add(Mul(Ten(300), y), Mul(Ten(9), T)))

(* The bounds are where the distribution functions of the order statistics are v. *)
IsBound(n, i, v, b, T) == LE(b, T) /\ Close(OrderCdf(n, i, b, T), Mul(v, Pow(T, n - 1)), Pow(T, n))
AreBounds(n, v, b, T) ==
  /\ Len(b) = n /\ Increasing(b)
  /\ \A i \in 1..n : IsBound(n, i, v, b[i], T)
(* out is the probability of a statistic below v. *)
IsDist(n, b, T, out) == IsNumber(out) /\ Within(out, Crossed(b, T), Pow(T, n), 9)

Stat == /\ Is("stat")
        /\ Quiet(/\ IsNumber(Ev.out) /\ Ev.out.neg = 0
                 /\ \E y \in {ShortStatistic(Ev.x, Ev.T)}, T \in {Pow(Ev.T, Len(Ev.x))} :
                      Close(Mul(Ev.out.num, T), Mul(y, Ev.out.den), Mul(T, Ev.out.den)))
        /\ UNCHANGED found
Kept == Is("kept") /\ Quiet(Ev.after = Ev.x) /\ UNCHANGED found
Works == Is("works") /\ Quiet(Ev.out.k = "none") /\ UNCHANGED found
Outside == Is("outside") /\ Quiet(Ev.out.k = "error") /\ UNCHANGED found
Bounds == Is("bounds") /\ Quiet(AreBounds(Ev.n, Ev.v, Ev.b, Ev.T)) /\ UNCHANGED found
Picks == /\ Is("picks")
         /\ Quiet(/\ Ev.len = Ev.n
                  /\ Increasing([k \in 1..Len(Ev.at) |-> Ev.at[k][2]])
                  /\ \A k \in 1..Len(Ev.at) : IsBound(Ev.n, Ev.at[k][1], Ev.v, Ev.at[k][2], Ev.T))
         /\ UNCHANGED found
Same == /\ Is("same")
        /\ Quiet(IsNumber(Ev.out) /\ IsNumber(Ev.ref) /\ Near(Ev.out, Ev.ref, 9))
        /\ UNCHANGED found
Dist == Is("dist") /\ Quiet(AreBounds(Ev.n, Ev.v, Ev.b, Ev.T) /\ IsDist(Ev.n, Ev.b, Ev.T, Ev.out)) /\ UNCHANGED found
(* The threshold found has level alpha. *)
Inv == /\ Is("inv")
       /\ Quiet(/\ IsNumber(Ev.out) /\ IsNumber(Ev.alpha)
                /\ AreBounds(Ev.n, Ev.v, Ev.b, Ev.T)
                /\ Within(Ev.alpha, Crossed(Ev.b, Ev.T), Pow(Ev.T, Ev.n), 10)
                /\ <<Ev.n, Ev.alpha>> \in DOMAIN found => found[<<Ev.n, Ev.alpha>>] = Ev.out)
       /\ found' = (<<Ev.n, Ev.alpha>> :> Ev.out) @@ found
Done == (Is("precalc") \/ Is("timings")) /\ Quiet(Ev.out.k = "none") /\ UNCHANGED found
Stored == /\ Is("stored")
          /\ Quiet(/\ [i \in 1..Len(Ev.pairs) |-> Ev.pairs[i].n] = Ev.ns
                   /\ \A i \in 1..Len(Ev.pairs) : <<Ev.pairs[i].n, Ev.alpha>> \in DOMAIN found
                                               /\ Ev.pairs[i].out = found[<<Ev.pairs[i].n, Ev.alpha>>])
          /\ UNCHANGED found
(* all: for each algorithm, the results for ns; those above its limit are not there. *)
Results == /\ Is("results")
           /\ Quiet(\A a \in 1..Len(Ev.all) :
                      /\ Len(Ev.all[a].out) = Len(Ev.ns)
                      /\ \A i \in 1..Len(Ev.ns) :
                           IF Ev.ns[i] > Ev.all[a].limit THEN Ev.all[a].out[i].k = "none"
                           ELSE IsNumber(Ev.all[a].out[i]) /\ Near(Ev.all[a].out[i], Ev.alpha, 9))
           /\ UNCHANGED found
Large == /\ Is("large")
         /\ Quiet(/\ Ev.rows # <<>>
                  /\ \A i \in 1..Len(Ev.rows) :
                       LET w == Ev.rows[i]
                       IN /\ AreBounds(w.n, w.v, w.b, w.T) /\ Len(w.outs) = 2
                          /\ \A j \in 1..2 : IsDist(w.n, w.b, w.T, w.outs[j]))
         /\ UNCHANGED found
Failed == Is("failed") /\ Quiet(FALSE) /\ UNCHANGED found      \* no answer, or not one in [0,1]
Init == s \in 1..Len(Trace) /\ l = 0 /\ found = <<>>
Next == Stat \/ Kept \/ Works \/ Outside \/ Bounds \/ Picks \/ Same \/ Dist \/ Inv \/ Done \/ Stored \/ Results \/ Large \/ Failed
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
