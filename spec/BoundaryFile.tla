--------------------------- MODULE BoundaryFile ---------------------------
(* What a boundary file says.  A text is a sequence of character codes.    *)
(*                                                                         *)
(* The parser is a function of positions: it never copies the text.        *)
(* A field yields                                                          *)
(*   [k |-> "error"]     the file has to be rejected                       *)
(*   [k |-> "number", .., loose |-> FALSE]   this number                   *)
(*   [k |-> "number", .., loose |-> TRUE]    this number or a rejection:   *)
(*        text follows the number, or it has an unusual form               *)
(* A number is neg, P, Q: +-P/Q, naturals of BigNat.                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, BigNat

NL == 10  Comma == 44  Dot == 46  Minus == 45  Plus == 43
Blank(c)  == c = 32 \/ c = 9
OddBlank(c) == c \in {11, 12, 13}
Digit(c)  == c >= 48 /\ c <= 57

\* first position in p..e with character c, or e+1 (no deep recursion: TLC takes quadratic time for that)
Find(t, p, e, c) == LET at == {i \in p..e : t[i] = c}
                    IN IF at = {} THEN e + 1 ELSE CHOOSE i \in at : \A j \in at : i <= j
RECURSIVE SkipSpace(_, _, _)
SkipSpace(t, p, e) == IF p <= e /\ (Blank(t[p]) \/ OddBlank(t[p])) THEN SkipSpace(t, p + 1, e) ELSE p
RECURSIVE SkipDigits(_, _, _)
SkipDigits(t, p, e) == IF p <= e /\ Digit(t[p]) THEN SkipDigits(t, p + 1, e) ELSE p

(* The digits at p..q-1, dots left out, as a number. Nine at a time. *)
RECURSIVE Small(_, _, _, _)
Small(t, p, q, x) == IF p = q THEN x ELSE IF t[p] = Dot THEN Small(t, p + 1, q, x)
                     ELSE Small(t, p + 1, q, 10 * x + (t[p] - 48))
RECURSIVE CountDigits(_, _, _)
CountDigits(t, p, q) == IF p = q THEN 0 ELSE (IF t[p] = Dot THEN 0 ELSE 1) + CountDigits(t, p + 1, q)
Power10(k) == Pow(<<10>>, k)
RECURSIVE Digits(_, _, _, _)
Digits(t, p, q, x) == IF q - p <= 9 THEN Add(Mul(x, Power10(CountDigits(t, p, q))), FromNat(Small(t, p, q, 0)))
                      ELSE Digits(t, p + 9, q, Add(Mul(x, Power10(CountDigits(t, p, p + 9))), FromNat(Small(t, p, p + 9, 0))))

AllBlank(t, p, e) == \A i \in p..e : Blank(t[i])
AnyOdd(t, p, e)   == \E i \in p..e : OddBlank(t[i])

(* Exponents of more than 4 digits are cut: the number is 0 or far out of range anyway. *)
Exponent(t, p, q) == LET r == IF q - p > 4 /\ \A i \in p..(q - 5) : t[i] = 48 THEN q - 4 ELSE p
                     IN IF q - r > 4 THEN 99999 ELSE Small(t, r, q, 0)

Field(t, p, e) ==
  LET a  == SkipSpace(t, p, e)
      sg == a <= e /\ t[a] \in {Minus, Plus}
      d  == IF sg THEN a + 1 ELSE a
      i  == SkipDigits(t, d, e)                                  \* after the integer digits
      f  == IF i <= e /\ t[i] = Dot THEN SkipDigits(t, i + 1, e) ELSE i
      nf == IF f > i THEN f - i - 1 ELSE 0                       \* fraction digits
      ok == (i - d) + nf > 0
      hasE == ok /\ f <= e /\ t[f] \in {69, 101}
      es == IF hasE /\ f + 1 <= e /\ t[f + 1] \in {Minus, Plus} THEN f + 2 ELSE f + 1
      ee == IF hasE THEN SkipDigits(t, es, e) ELSE f
      ex == hasE /\ ee > es
      z  == IF ex THEN ee ELSE f                                 \* after the number
      x  == IF ex THEN (IF t[f + 1] = Minus THEN -Exponent(t, es, ee) ELSE Exponent(t, es, ee)) ELSE 0
      mant == Digits(t, d, f, <<>>)
      k  == x - nf
  IN IF ~ok THEN [k |-> "error"]
     ELSE [k |-> "number", neg |-> IF sg /\ t[a] = Minus THEN 1 ELSE 0,
           P |-> IF mant = <<>> THEN mant ELSE IF k > 0 THEN Mul(mant, Power10(IF k > 2000 THEN 2000 ELSE k)) ELSE mant,
           Q |-> IF k < 0 /\ mant # <<>> THEN Power10(IF k < -20000 THEN 20000 ELSE -k) ELSE <<1>>,
           loose |-> \/ ~AllBlank(t, z, e) \/ AnyOdd(t, p, a - 1)
                     \/ (sg /\ t[a] = Plus) \/ (hasE /\ ~ex)]

FieldsAt(t, p, e, c) ==
  LET n == Len(c)
      from(i) == IF i = 1 THEN p ELSE c[i - 1] + 1
      to(i)   == IF i > n THEN e ELSE c[i] - 1
      last == IF from(n + 1) > e THEN n ELSE n + 1                \* nothing after the last comma
  IN [i \in 1..last |-> Field(t, from(i), to(i))]
(* c: where the commas are. Bound to a set's element, it is evaluated only once. *)
Fields(t, p, e) == CHOOSE f \in {FieldsAt(t, p, e, c) : c \in {SetToSortSeq({i \in p..e : t[i] = Comma}, <)}} : TRUE

(* The two lists, or FALSE if there are no two lines. *)
Lists(t) ==
  LET n  == Len(t)
      e1 == Find(t, 1, n, NL)
      e2 == IF e1 >= n THEN n ELSE Find(t, e1 + 1, n, NL)
  IN IF e1 >= n THEN <<>> ELSE <<Fields(t, 1, e1 - 1), Fields(t, e1 + 1, e2 - 1)>>

---------------------------------------------------------------------------
(* Doubles are man * 2^exp with 2^52 <= man < 2^53, or man = 0, or subnormal (exp = -1074). *)
Pow2(k) == Shl(<<1>>, k)
Scaled(x, k) == IF k >= 0 THEN Shl(x, k) ELSE x
(* 2 |man 2^exp - P/Q| <= 2^exp *)
Nearest(man, exp, P, Q) ==
  LET x == Scaled(Mul(man, Q), exp)
      y == Scaled(P, -exp)
      u == Scaled(Q, exp)
  IN LE(Shl(Diff(x, y), 1), u)
(* beyond the largest double (2^1024 - 2^970, rounded): an overflow *)
Overflow(P, Q) == LE(Mul(Sub(Pow2(1024), Pow2(970)), Q), P)
HalfOverflow(P, Q) == LT(Mul(Sub(Pow2(1024), Pow2(971)), Q), P)
(* below 2^-1075: no double but 0 is near; below 2^-1022: subnormal *)
Underflow(P, Q) == P # <<>> /\ LT(Mul(P, Pow2(1075)), Q)
Subnormal(P, Q) == P # <<>> /\ LT(Mul(P, Pow2(1022)), Q)

MustReject(f) == f.k = "error" \/ Overflow(f.P, f.Q) \/ Underflow(f.P, f.Q)
MayReject(f)  == MustReject(f) \/ f.loose \/ Subnormal(f.P, f.Q) \/ HalfOverflow(f.P, f.Q)
Reads(f, v)   == /\ ~MustReject(f)
                 /\ f.P = <<>> => v.man = <<>>
                 /\ f.P # <<>> => v.neg = f.neg /\ Nearest(v.man, v.exp, f.P, f.Q)
ReadsList(fs, vs) == Len(fs) = Len(vs) /\ \A i \in DOMAIN fs : Reads(fs[i], vs[i])

(* Is this the right outcome of reading text t? *)
Right(t, out) ==
  \E ll \in {Lists(t)} :
     IF ll = <<>> THEN out.k = "error"
     ELSE CASE out.k = "error" -> \E j \in {1, 2} : \E i \in DOMAIN ll[j] : MayReject(ll[j][i])
            [] out.k = "lists" -> ReadsList(ll[1], out.b) /\ ReadsList(ll[2], out.B)
            [] OTHER -> FALSE
=============================================================================
