--------------------------- MODULE TinyMTPeriod ---------------------------
(* With the standard parameters every stream has the full period 2^127-1,  *)
(* and so a state that is not zero never becomes zero: NextState is linear *)
(* on the 127 state bits, its minimal polynomial Poly has degree 127, Poly *)
(* has no root in GF(2) and divides x^(2^127) - x.  As 127 is prime, it is *)
(* irreducible; as 2^127 - 1 is prime, the order of x is that number.      *)
(* A polynomial over GF(2) is the number whose bits are its coefficients.  *)
EXTENDS TinyMT, SequencesExt, TLC

Hex(parts) == FoldLeft(LAMBDA x, h : Add(Shl(x, 16), FromNat(h)), <<>>, parts)
Mat1 == Hex(<<64005, 8000>>)                       \* fa05 1f40
Mat2 == Hex(<<65488, 65524>>)                      \* ffd0 fff4
Degree == 127
Bit(x, i) == And(x, Shl(<<1>>, i)) # <<>>
Unpack(v) == [s0 |-> Low63(v), s1 |-> Shr(v, 63), mat1 |-> Mat1, mat2 |-> Mat2]
Pack(g)   == Add(Low63(g.s0), Shl(g.s1, 63))
Step(v)   == Pack(NextState(Unpack(v)))
Unit(i)   == Shl(<<1>>, i)

Linear == \A i \in 0 .. Degree - 1 : \A j \in 0 .. i - 1 : Step(Xor(Unit(i), Unit(j))) = Xor(Step(Unit(i)), Step(Unit(j)))

(* The states after 0 .. 127 steps from <<1>>, each over x^i, reduced by   *)
(* those before it.                                                        *)
Room == 128
Reduced(rows, w) == FoldLeft(LAMBDA x, b : IF LT(Xor(x, b), x) THEN Xor(x, b) ELSE x, w, rows)
Rows == FoldLeft(LAMBDA c, i : <<Append(c[1], Reduced(c[1], Add(Shl(c[2], Room), Unit(i)))), Step(c[2])>>,
                 <<<<>>, <<1>>>>, [i \in 1 .. Degree + 1 |-> i - 1])[1]
Independent == \A i \in 1 .. Degree : Shr(Rows[i], Room) # <<>>
Dependent   == Shr(Rows[Degree + 1], Room) = <<>>
Poly == TLCEval(Rows[Degree + 1])
Terms(p) == FoldLeft(LAMBDA n, i : n + (IF Bit(p, i) THEN 1 ELSE 0), 0, [i \in 1 .. Degree + 1 |-> i - 1])

ASSUME Linear /\ Independent /\ Dependent
ASSUME Bit(Poly, Degree) /\ Bit(Poly, 0) /\ Terms(Poly) % 2 = 1

Squared(p) == FoldLeft(LAMBDA x, i : IF Bit(p, i) THEN Add(x, Unit(2 * i)) ELSE x, <<>>, [i \in 1 .. Degree |-> i - 1])
Rest(p)    == FoldLeft(LAMBDA x, i : IF Bit(x, i) THEN Xor(x, Shl(Poly, i - Degree)) ELSE x, p,
                       [i \in 1 .. Degree - 1 |-> 2 * Degree - 1 - i])

VARIABLES k, power                                 \* power = x^(2^k) modulo Poly
Init == k = 0 /\ power = <<2>>
Next == k < Degree /\ k' = k + 1 /\ power' = Rest(Squared(power))
Spec == Init /\ [][Next]_<<k, power>> /\ WF_<<k, power>>(Next)

FullPeriod == (power = <<2>>) <=> k \in {0, Degree}
Arrives == <>(k = Degree)
=============================================================================
