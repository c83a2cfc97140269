----------------------------- MODULE RelTrace -----------------------------
(* Sessions that relate answers to each other, at sizes of any order.      *)
(* The state of a session is the current question and the answers to it.   *)
(* The next event is one of                                                *)
(*   ask      a new question, answered by several algorithms               *)
(*   again    the same question, answered by further algorithms            *)
(*   reflect  the question for 1 - X                                       *)
(*   cut      the two questions with X_(i) <= t and with X_(i) >= t; the   *)
(*            session continues with one of them                           *)
(*   tighten  the question with one bound b_i or B_i moved inwards         *)
(* Each event carries the questions that were really asked; the spec       *)
(* derives them from the current question and insists on equality.         *)
EXTENDS Crossing, Numbers, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l,       \* session and position in it
          m, b, B,    \* the current question, lists as runs
          ans         \* its answers, a sequence of [op, out]
vars == <<s, l, m, b, B, ans>>

---------------------------------------------------------------------------
(* Operations on lists in run-length form *)
RECURSIVE Merge(_)
Merge(r) == IF Len(r) = 0 THEN r
            ELSE IF r[1][1] = 0 THEN Merge(Tail(r))
            ELSE IF Len(r) >= 2 /\ (r[2][1] = 0 \/ r[2][2] = r[1][2])
                 THEN Merge(<<<<r[1][1] + r[2][1], r[1][2]>>>> \o SubSeq(r, 3, Len(r)))
                 ELSE <<r[1]>> \o Merge(Tail(r))

\* bounds 1..i become at most t
RECURSIVE CapFirst(_, _, _)
CapFirst(r, i, t) ==
  IF i = 0 \/ Len(r) = 0 THEN r
  ELSE IF r[1][1] <= i THEN <<<<r[1][1], Min2(r[1][2], t)>>>> \o CapFirst(Tail(r), i - r[1][1], t)
  ELSE <<<<i, Min2(r[1][2], t)>>, <<r[1][1] - i, r[1][2]>>>> \o Tail(r)

\* bounds i.. become at least t
RECURSIVE RaiseFrom(_, _, _)
RaiseFrom(r, i, t) ==
  IF Len(r) = 0 THEN r
  ELSE IF i > r[1][1] THEN <<r[1]>> \o RaiseFrom(Tail(r), i - r[1][1], t)
  ELSE IF i > 1 THEN <<<<i - 1, r[1][2]>>, <<r[1][1] - i + 1, Max2(r[1][2], t)>>>> \o RaiseFrom(Tail(r), 1, t)
  ELSE <<<<r[1][1], Max2(r[1][2], t)>>>> \o RaiseFrom(Tail(r), 1, t)

Constant(r, x) == (Len(r) = 1 /\ r[1][2] = x) \/ r = <<>>

---------------------------------------------------------------------------
Lower == {"new_b", "mns_b"}
Upper == {"new_B", "mns_B"}
Answers(op, bb, BB) == CASE op \in {"ks", "fft"} -> TRUE
                         [] op \in Lower -> Constant(BB, m)        \* the other list bounds nothing
                         [] op \in Upper -> Constant(bb, 0)
IsNumber(a) == a.out.k = "value" /\ Between01(a.out, 9)
AllNumbers(A) == \A j \in DOMAIN A : IsNumber(A[j])
AgreeWithin(A, C, k) == \A j \in DOMAIN A, i \in DOMAIN C : Near(A[j].out, C[i].out, k)

Ev == Trace[s].ev[l + 1]
Mirror(op) == CASE op = "new_b" -> "new_B" [] op = "new_B" -> "new_b"
                [] op = "mns_b" -> "mns_B" [] op = "mns_B" -> "mns_b" [] OTHER -> op

\* 10^-k >= |x + y - z|
SumNear(x, y, z, k) ==
  LET xs == Mul(x.num, Mul(y.den, z.den))
      ys == Mul(y.num, Mul(x.den, z.den))
      zs == Mul(z.num, Mul(x.den, y.den))
      dd == Mul(x.den, Mul(y.den, z.den))
      pos == Add(IF x.neg = 0 THEN xs ELSE <<>>, Add(IF y.neg = 0 THEN ys ELSE <<>>, IF z.neg = 1 THEN zs ELSE <<>>))
      neg == Add(IF x.neg = 1 THEN xs ELSE <<>>, Add(IF y.neg = 1 THEN ys ELSE <<>>, IF z.neg = 0 THEN zs ELSE <<>>))
  IN LE(Mul(Ten(k), Diff(pos, neg)), dd)

Quiet(c) == IF c THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
Go(q, A) == m' = q.m /\ b' = Merge(q.b) /\ B' = Merge(q.B) /\ ans' = A
Is(t) == l < Len(Trace[s].ev) /\ Ev.t = t /\ l' = l + 1 /\ s' = s
Shape(q, bb, BB) == Assert(q.m = m /\ Merge(q.b) = Merge(bb) /\ Merge(q.B) = Merge(BB),
                           <<"the harness asked something else", s, l + 1>>)

Ask == /\ Is("ask")
       /\ Quiet(/\ AllNumbers(Ev.a) /\ AgreeWithin(Ev.a, Ev.a, 9)
                /\ (Constant(Ev.b, 0) /\ Constant(Ev.B, Ev.m)) => AgreeWithin(Ev.a, <<[out |-> One]>>, 9))
       /\ Go(Ev, Ev.a)

Again == /\ Is("again")
         /\ Assert(\A j \in DOMAIN Ev.a : Answers(Ev.a[j].op, b, B), <<"wrong algorithm", s, l + 1>>)
         /\ Quiet(AllNumbers(Ev.a) /\ AgreeWithin(Ev.a, ans, 9) /\ AgreeWithin(Ev.a, Ev.a, 9))
         /\ ans' = ans \o Ev.a /\ UNCHANGED <<m, b, B>>

ReflectIt == /\ Is("reflect")
             /\ Shape(Ev, Reflect(m, B), Reflect(m, b))
             /\ Quiet(/\ AllNumbers(Ev.a)
                      /\ \A j \in DOMAIN Ev.a, i \in DOMAIN ans :
                           Ev.a[j].op = Mirror(ans[i].op) => Near(Ev.a[j].out, ans[i].out, 9))
             /\ Go(Ev, Ev.a)

(* X_(i) <= t caps B_1..B_i, X_(i) >= t raises b_i..b_n *)
Cut == /\ Is("cut")
       /\ Shape(Ev.low, b, CapFirst(B, Ev.i, Ev.at))
       /\ Shape(Ev.high, RaiseFrom(b, Ev.i, Ev.at), B)
       /\ Quiet(/\ AllNumbers(Ev.low.a) /\ AllNumbers(Ev.high.a)
                /\ \A x \in DOMAIN Ev.low.a, y \in DOMAIN Ev.high.a, z \in DOMAIN ans :
                     SumNear(Ev.low.a[x].out, Ev.high.a[y].out, ans[z].out, 9))
       /\ IF Ev.go = "low" THEN Go(Ev.low, Ev.low.a) ELSE Go(Ev.high, Ev.high.a)

Tighten == /\ Is("tighten")
           /\ IF Ev.side = "B" THEN Shape(Ev, b, CapFirst(B, Ev.i, Ev.at))
              ELSE Shape(Ev, RaiseFrom(b, Ev.i, Ev.at), B)
           /\ Quiet(/\ AllNumbers(Ev.a)
                    /\ \A j \in DOMAIN Ev.a, i \in DOMAIN ans : AtMost(Ev.a[j].out, ans[i].out, 9))
           /\ Go(Ev, Ev.a)

Init == s \in 1..Len(Trace) /\ l = 0 /\ m = 1 /\ b = <<>> /\ B = <<>> /\ ans = <<>>
Next == Ask \/ Again \/ ReflectIt \/ Cut \/ Tighten
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
