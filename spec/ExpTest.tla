------------------------------ MODULE ExpTest ------------------------------
(* e to 60 digits, e^0 = 1, the functional equation, and that the Poisson  *)
(* weights with rate a/b sum to 1.                                         *)
EXTENDS Exp, Numbers, TLC
VARIABLE a, b, step
Init == a \in 0..10 /\ b \in {1, 2, 3, 7} /\ step = 0
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<a, b>>
E == Exp(FromNat(a), FromNat(b))
ScaledOne == Shl(<<1>>, W)
CloseTo(x, y) == LE(Shl(Diff(x, y), 250), x)        \* equal to a relative 2^-250
Functional == \A c \in 0..6 : CloseTo(Shr(Mul(E, Exp(FromNat(c), FromNat(b))), W), Exp(FromNat(a + c), FromNat(b)))
RECURSIVE Sum(_)
Sum(k) == IF k < 0 THEN <<>> ELSE Add(Sum(k - 1), Div(Shl(Pow(FromNat(a), k), W), Mul(Pow(FromNat(b), k), Fact(k))))
WeightsSum == CloseTo(Sum(160), E)
(* floor(e * 10^20) = 271828182845904523536 *)
Digits == Div(Mul(Exp(<<1>>, <<1>>), Ten(20)), ScaledOne)
Expected == Add(Mul(FromNat(271828182), Ten(12)), Add(Mul(FromNat(845904), Ten(6)), FromNat(523536)))
Inv == Functional /\ WeightsSum /\ Exp(<<>>, <<1>>) = ScaledOne /\ Digits = Expected
=============================================================================
