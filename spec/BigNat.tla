------------------------------ MODULE BigNat ------------------------------
(* The operators of BigNatRef under the names that other modules use.      *)
(* The class BigNatOverrides (../java) evaluates them with BigInteger.     *)
LOCAL INSTANCE Integers
LOCAL R == INSTANCE BigNatRef

FromNat(k)      == R!FromNat(k)
Norm(a)         == R!Norm(a)
Add(a, b)       == R!Add(a, b)
Sub(a, b)       == R!Sub(a, b)
Cmp(a, b)       == R!Cmp(a, b)
Mul(a, b)       == R!Mul(a, b)
Pow(a, k)       == R!Pow(a, k)
Shl(a, k)       == R!Shl(a, k)
Shr(a, k)       == R!Shr(a, k)
Div(a, b)       == R!Div(a, b)
Mod(a, b)       == R!Mod(a, b)
Xor(a, b)       == R!Xor(a, b)
And(a, b)       == R!And(a, b)
Fact(k)         == R!Fact(k)
Binom(n, k)     == R!Binom(n, k)
Spread(V, lo, n, w, lo2, hi2) == R!Spread(V, lo, n, w, lo2, hi2)

LE(a, b) == Cmp(a, b) # 1
LT(a, b) == Cmp(a, b) = -1
Diff(a, b) == IF Cmp(a, b) = 1 THEN Sub(a, b) ELSE Sub(b, a)     \* |a - b|
=============================================================================
