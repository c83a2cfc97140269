----------------------------- MODULE ApiTrace -----------------------------
(* Recorded sessions of calls of the library, checked against Crossing.    *)
(*                                                                         *)
(* A session is the sequence of questions that one process was asked.  An  *)
(* event is one question with the answers that the algorithms gave:        *)
(*    id       names the question: equal ids are equal questions           *)
(*    m, b, B  the lists as runs <<how often, level>>, level l being l/m   *)
(*    at       (optional) the places of the levels, see Crossing           *)
(*    grid     1 if levels stand for exactly these numbers, 0 if only      *)
(*             their order is known (infinities, subnormal numbers, ...)   *)
(*    line     (optional) [k, a]: the only bounds are the straight line    *)
(*             LineRuns(n, k, a) of lower bounds or its reflection         *)
(*    a        sequence of [op, out]                                       *)
(* The level NotANumber stands for NaN.                                    *)
(* The state of a session is what was answered before: the same question   *)
(* has to get the same answer again.                                       *)
EXTENDS Crossing, Numbers, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, known
vars == <<s, l, known>>

NotANumber == 2147483646
Lower == {"new_b", "mns_b"}
Upper == {"new_B", "mns_B"}
Both  == {"ks", "fft"}

ValidList(m, r) == Valid(m, r) /\ \A k \in 1..Len(r) : r[k][2] # NotANumber
ValidQ(q, op) == CASE op \in Lower -> ValidList(q.m, q.b)
                   [] op \in Upper -> ValidList(q.m, q.B)
                   [] op \in Both  -> /\ ValidList(q.m, q.b) /\ ValidList(q.m, q.B)
                                      /\ Length(q.b) = Length(q.B)

Places(q) == IF "at" \in DOMAIN q THEN q.at ELSE <<>>
(* The straight line that the question names, and no other bounds. *)
IsLine(q, n) == LET r == LineRuns(n, q.line.k, q.line.a)
                    Free(x, lev) == x = <<>> \/ x = <<<<n, lev>>>>
                IN /\ q.grid = 1 /\ "at" \notin DOMAIN q /\ (n - q.line.k) * q.line.a <= q.m
                   /\ \/ q.b = r /\ Free(q.B, q.m)
                      \/ q.B = Reflect(q.m, r) /\ Free(q.b, 0)
Exact(q, op) == IF "line" \in DOMAIN q
                THEN LET n == Max2(Length(q.b), Length(q.B))
                     IN IF IsLine(q, n) THEN LineCount(n, q.line.k, q.line.a, q.m)
                        ELSE Assert(FALSE, "not the line that it says")
                ELSE CASE op \in Lower -> CountAt(Places(q), Length(q.b), q.m, q.b, <<>>)
                  [] op \in Upper -> CountAt(Places(q), Length(q.B), q.m, <<>>, q.B)
                  [] op \in Both  -> CountAt(Places(q), Length(q.b), q.m, q.b, q.B)
Size(q, op) == IF op \in Upper THEN Length(q.B) ELSE Length(q.b)

(* Without places the code gets the double nearest to l/m.  On a fine grid with m # 2^k that rounding changes
   the widths of narrow corridors by too much to speak of the relative error of the result. *)
RECURSIVE PowerOfTwo(_)
PowerOfTwo(x) == x = 1 \/ (x % 2 = 0 /\ PowerOfTwo(x \div 2))
Exactly(m) == m <= 1000 \/ PowerOfTwo(m)

(* Is the outcome what the library promises?  C is the exact count. *)
Right(q, op, out, C) ==
  IF ~ValidQ(q, op) THEN out.k = "error"
  ELSE /\ out.k = "value"
       /\ LET T == TotalAt(Places(q), Size(q, op), q.m)
          IN IF q.grid = 1
             THEN /\ Within(out, C, T, 9)
                  /\ (op = "ks" /\ (Places(q) # <<>> \/ Exactly(q.m))) => WithinRel(out, C, T, 8, 250)
             ELSE Between01(out, 9)

(* Is it what was answered before? *)
SameAs(old, out) == /\ old.k = out.k
                    /\ old.k = "value" => Near(old, out, 12)
Consistent(q, op, out) == <<q.id, op>> \in DOMAIN known => SameAs(known[<<q.id, op>>], out)

Accepts(q) ==
  LET \* one count for all two-sided answers, one for each kind of one-sided answer
      cBoth  == Exact(q, "ks")
      cLower == Exact(q, "new_b")
      cUpper == Exact(q, "new_B")
      C(op)  == CASE op \in Both -> cBoth [] op \in Lower -> cLower [] op \in Upper -> cUpper
      Bad == {j \in 1..Len(q.a) : ~ /\ Right(q, q.a[j].op, q.a[j].out, C(q.a[j].op))
                                    /\ Consistent(q, q.a[j].op, q.a[j].out)}
  IN IF Bad = {} THEN TRUE
     ELSE PrintT(<<"BAD", s, l + 1, CHOOSE j \in Bad : TRUE>>) /\ FALSE

Event == Trace[s].ev[l + 1]
Answers(q) == [x \in {<<q.id, q.a[j].op>> : j \in 1..Len(q.a)} |->
                 (CHOOSE r \in {q.a[j] : j \in 1..Len(q.a)} : r.op = x[2]).out]

Init == s \in 1..Len(Trace) /\ l = 0 /\ known = <<>>

Answer == /\ l < Len(Trace[s].ev)
          /\ Accepts(Event)
          /\ l' = l + 1 /\ s' = s
          /\ known' = known @@ Answers(Event)      \* the first answer is the reference

Next == Answer
Spec == Init /\ [][Next]_vars

(* Every session must be accepted to its end: then there are as many distinct states as this. *)
RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE 1 + Len(Trace[k].ev) + Steps(k - 1)
Accepted == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================
