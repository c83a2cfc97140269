---------------------------- MODULE BigNatTest ----------------------------
(* Checks the BigInteger evaluation of BigNat against BigNatRef.           *)
EXTENDS Integers, Sequences, TLC, BigNat
R == INSTANCE BigNatRef
VARIABLE x
Start == <<0>>
Digits == {0, 1, 2, 7, 255, 16384, 32766, 32767}
Nums == {<<>>} \cup {<<d>> : d \in Digits \ {0}}
        \cup {<<d, e>> : d \in Digits, e \in {1, 127, 32767}}
        \cup {<<d, e, f>> : d \in {0, 1, 32767}, e \in {0, 5, 32767}, f \in {1, 1000, 32767}}
        \cup {<<d, 0, 3, 32767, e>> : d \in {0, 32767}, e \in {1, 32767}}
Small == {0, 1, 2, 32767, 32768, 65535, 1000000, 1073741824, 2147483647}
Shifts == {0, 1, 7, 14, 15, 16, 31, 45, 64}
Init == x = Start
Next == x = Start /\ x' \in Nums
NumsOK == x = Start \/ \A b \in Nums :
  /\ Add(x, b) = R!Add(x, b)
  /\ Cmp(x, b) = R!Cmp(x, b)
  /\ Mul(x, b) = R!Mul(x, b)
  /\ Xor(x, b) = R!Xor(x, b)
  /\ And(x, b) = R!And(x, b)
  /\ (R!Cmp(x, b) >= 0 => Sub(x, b) = R!Sub(x, b))
  /\ (b # <<>> => Div(x, b) = R!Div(x, b) /\ Mod(x, b) = R!Mod(x, b))
  /\ R!Add(x, b) = R!Add(b, x) /\ R!Mul(x, b) = R!Mul(b, x)
  /\ R!Sub(R!Add(x, b), b) = x
ShiftsOK == x = Start \/
            /\ \A k \in Shifts : Shl(x, k) = R!Shl(x, k) /\ Shr(x, k) = R!Shr(x, k)
            /\ Norm(x \o <<0, 0>>) = x /\ R!Norm(x \o <<0, 0>>) = x
            /\ \A k \in 0..4 : Pow(x, k) = R!Pow(x, k)
SmallOK == x # Start \/
  /\ \A k \in Small : FromNat(k) = R!FromNat(k)
  /\ \A k \in 0..25 : Fact(k) = R!Fact(k) /\ \A j \in 0..k : Binom(k, j) = R!Binom(k, j)
  /\ \A n \in 0..4, w \in {<<>>, <<1>>, <<3>>, <<7232, 1>>, <<1, 2, 3, 4, 5>>}, lo \in 0..2, k \in 1..2, lo2 \in 0..3, hi2 \in 0..4 :
       (lo + k - 1 <= n /\ hi2 <= n) =>
          LET V == [i \in 1..k |-> R!FromNat(7 * i + 32768 * lo)]
          IN Spread(V, lo, n, w, lo2, hi2) = R!Spread(V, lo, n, w, lo2, hi2)
=============================================================================
