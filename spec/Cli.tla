-------------------------------- MODULE Cli --------------------------------
(* The two command line programs: which command lines have a result, and   *)
(* which result.                                                           *)
(*                                                                         *)
(* A run is a record with                                                  *)
(*   prog   "crossprob" or "crossprob_mc"                                  *)
(*   argc   the number of arguments                                        *)
(*   cmd    the first argument, a string                                   *)
(*   file   what the second argument names: [t |-> "none"] if nothing can  *)
(*          be read there, [t |-> "text", text |-> codes] otherwise, or    *)
(*          [t |-> "odd"] for texts with numbers like nan or 0x1           *)
(*   count  the codes of the third argument                                *)
(*   grid   1 if the lists of the file are those of the runs b, B on a     *)
(*          grid with m cells                                              *)
(*   lib    (crossprob, sometimes) what the library function returned for   *)
(*          the same lists                                                 *)
(*   out    what was observed: k is "value" (exit status 0, and the last   *)
(*          line is a number), "error" (another exit status, a message and *)
(*          no result), "running" if it was stopped after some seconds,    *)
(*          or anything else ("crash", "hang", "noresult", ..)             *)
(*                                                                         *)
(* The program goes through stages; each of them refuses the command line, *)
(* lets it pass, or may do either ("loose": nothing is promised).          *)
EXTENDS BoundaryFile, MCEstimate

OneSided == {"ecdf1-mns2016", "ecdf1-new"}
TwoSided == {"ecdf2-ks2001", "ecdf2-mn2017"}
Simulations == {"ecdf", "poisson"}

If(c) == IF c THEN "pass" ELSE "refuse"
Worst(vs) == IF "refuse" \in vs THEN "refuse" ELSE IF "loose" \in vs THEN "loose" ELSE "pass"

---------------------------------------------------------------------------
(* The arguments *)
ArgCount(r) == If(r.argc = IF r.prog = "crossprob" THEN 2 ELSE 3)
Command(r)  == If(r.cmd \in IF r.prog = "crossprob" THEN OneSided \cup TwoSided ELSE Simulations)

(* A number of simulations: digits, perhaps with blanks and a sign before them. *)
CountStage(t) ==
  LET n == Len(t)
      a == SkipSpace(t, 1, n)
      sg == a <= n /\ t[a] \in {Minus, Plus}
      d == IF sg THEN a + 1 ELSE a
      e == SkipDigits(t, d, n)
      v == Digits(t, d, e, <<>>)
  IN IF e = d \/ e <= n THEN "refuse"                       \* no digits, or text after them
     ELSE IF sg /\ t[a] = Minus THEN (IF v = <<>> THEN "loose" ELSE "refuse")
     ELSE IF LE(Pow(<<2>>, 63), v) THEN "refuse"
     ELSE IF a > 1 \/ sg \/ v = <<>> THEN "loose"
     ELSE "pass"
CountValue(t) == Digits(t, 1, Len(t) + 1, <<>>)

---------------------------------------------------------------------------
(* The file. ll are its two lists of fields, or <<>>. *)
FieldStage(f) == IF MustReject(f) THEN "refuse" ELSE IF MayReject(f) THEN "loose" ELSE "pass"
FieldsStage(fs) == Worst({FieldStage(fs[i]) : i \in DOMAIN fs})
FileStage(r, ll) == CASE r.file.t = "none" -> "refuse"
                      [] r.file.t = "odd"  -> "loose"
                      [] r.file.t = "text" -> IF ll = <<>> THEN "refuse"
                                              ELSE Worst({FieldsStage(ll[1]), FieldsStage(ll[2])})

(* The lists of crossprob. Numbers this close may become the same double. *)
Signed(f)  == IF f.P = <<>> THEN 0 ELSE IF f.neg = 1 THEN -1 ELSE 1
Slightly(x, y, unit) == LE(Shl(Diff(x, y), 50), unit)
InUnit(f)  == IF Signed(f) < 0 THEN "refuse"
              ELSE IF LE(f.P, f.Q) THEN "pass"
              ELSE IF Slightly(f.P, f.Q, f.Q) THEN "loose" ELSE "refuse"
Ascends(f, g) == IF Signed(f) < 0 \/ Signed(g) < 0 THEN "refuse"        \* InUnit refuses anyway
                 ELSE LET x == Mul(f.P, g.Q)
                          y == Mul(g.P, f.Q)
                      IN IF LE(x, y) THEN "pass" ELSE IF Slightly(x, y, x) THEN "loose" ELSE "refuse"
ListStage(fs) == Worst({InUnit(fs[i]) : i \in DOMAIN fs} \cup {Ascends(fs[i], fs[i + 1]) : i \in 1..(Len(fs) - 1)})
ShapeStage(cmd, n, k) == IF cmd \in OneSided THEN If((n = 0) # (k = 0))
                         ELSE If(n = k \/ n = 0 \/ k = 0)

ListsStage(r, ll) == IF r.prog = "crossprob_mc" \/ ll = <<>> \/ r.file.t # "text" THEN "pass"
                     ELSE IF \E j \in {1, 2} : \E i \in DOMAIN ll[j] : ll[j][i].k = "error" THEN "pass"
                     ELSE Worst({ShapeStage(r.cmd, Len(ll[1]), Len(ll[2])), ListStage(ll[1]), ListStage(ll[2])})

---------------------------------------------------------------------------
(* All stages together *)
Verdict(r, ll) ==
  IF ArgCount(r) = "refuse" THEN "refuse"
  ELSE Worst({Command(r), FileStage(r, ll), ListsStage(r, ll),
              IF r.prog = "crossprob" THEN "pass" ELSE CountStage(r.count)})

(* The file really has the lists of the runs: its numbers are the l/m, up to 2^-50. *)
SpellsLevel(f, l, m) == /\ f.k = "number"
                        /\ (l < 0 => f.neg = 1 /\ f.P # <<>>)
                        /\ (l > m => LT(f.Q, f.P))
                        /\ (0 <= l /\ l <= m) => Slightly(Mul(f.P, FromNat(m)), Mul(FromNat(l), f.Q), Mul(FromNat(m), f.Q))
RECURSIVE SpellsRuns(_, _, _, _)
SpellsRuns(fs, i, runs, m) ==
  IF runs = <<>> THEN i = Len(fs)
  ELSE /\ i + runs[1][1] <= Len(fs)
       /\ \A j \in (i + 1)..(i + runs[1][1]) : SpellsLevel(fs[j], runs[1][2], m)
       /\ SpellsRuns(fs, i + runs[1][1], Tail(runs), m)
Spells(r, ll) == ll # <<>> /\ SpellsRuns(ll[1], 0, r.b, r.m) /\ SpellsRuns(ll[2], 0, r.B, r.m)

(* 6 digits of a number within 10^-9 of C/T *)
Shown(v, C, T) ==
  LET a == Mul(v.num, T)
      c == Mul(C, v.den)
      dist == IF v.neg = 1 THEN Add(a, c) ELSE Diff(a, c)
  IN LE(Mul(Ten(9), dist), Add(Mul(v.den, T), Mul(FromNat(5100), a)))

(* The printed number is the library's value w to 6 digits, where the runs of one algorithm may differ by 10^-12. *)
SameDigits(v, w) ==
  w.k = "value" =>
    LET x == Mul(v.num, w.den)
        y == Mul(w.num, v.den)
        dist == IF v.neg = w.neg THEN Diff(x, y) ELSE Add(x, y)
    IN LE(Mul(Ten(12), dist), Add(Mul(v.den, w.den), Mul(Mul(FromNat(5100), Ten(3)), y)))
(* 6 digits, also of small probabilities *)
SixDigits(v, C, T) ==
  LT(T, Mul(Ten(250), C)) =>
    LET x == Mul(v.num, T)
        y == Mul(C, v.den)
    IN v.neg = 0 /\ LE(Mul(Ten(7), Diff(x, y)), Mul(FromNat(52), y))

Size(r) == Max2(Length(r.b), Length(r.B))
ResultOfGrid(r) ==
  IF r.prog = "crossprob"
  THEN \* an empty list bounds nothing; Valid again, as levels outside of 0..m are numbers outside of [0,1]
       LET n == Size(r)
           T == Total(n, r.m)
       IN /\ Valid(r.m, r.b) /\ Valid(r.m, r.B)
          /\ \E C \in {Count(n, r.m, r.b, r.B)} : /\ Shown(r.out, C, T)
                                               /\ r.cmd = "ecdf2-ks2001" => SixDigits(r.out, C, T)
          /\ "lib" \in DOMAIN r => SameDigits(r.out, r.lib)
  ELSE LET p == Prob([cmd |-> r.cmd, m |-> r.m, b |-> r.b, B |-> r.B])
       IN Estimate(CountValue(r.count), r.out, p[1], p[2])
Result(r) == IF r.grid = 1 THEN ResultOfGrid(r) ELSE Between01(r.out, 5)

RightRun(r) ==
  \E ll \in {IF r.file.t = "text" THEN Lists(r.file.text) ELSE <<>>} :
    LET v == Verdict(r, ll)
    IN /\ r.grid = 1 => Spells(r, ll)
       /\ CASE v = "refuse" -> r.out.k = "error"
            [] v = "pass"   -> \/ r.out.k = "value" /\ Result(r)
                               \/ r.out.k = "running" /\ r.prog = "crossprob_mc" /\ LE(Pow(<<2>>, 31), CountValue(r.count))
            [] v = "loose"  -> \/ r.out.k = "error"
                               \/ r.out.k = "value" /\ (CountStage(r.count) # "pass" \/ Result(r))
                               \/ r.out.k = "nan" /\ r.prog = "crossprob_mc" /\ CountStage(r.count) = "loose"
=============================================================================
