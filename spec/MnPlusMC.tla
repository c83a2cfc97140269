----------------------------- MODULE MnPlusMC -----------------------------
(* Why Mn_plus_distribution is what it says: for every sample on a grid    *)
(* and every threshold v/m^n,                                              *)
(*     min_i Pr[U_(i) <= x_(i)] < v  iff  some x_(i) < b_i,                *)
(* b_i being the smallest grid point at which Pr[U_(i) <= .] reaches v; so *)
(* the number of samples whose statistic is below v is the crossing count  *)
(* of b.  Also that the cumulative distributions are ones.                 *)
EXTENDS MnPlus, TLC
CONSTANTS MaxN, MaxM
VARIABLES n, m, v
Init == n \in 1..MaxN /\ m \in 1..MaxM /\ v = 0
Next == v < m ^ n /\ v' = v + 1 /\ UNCHANGED <<n, m>>

F(i, x) == OrderCdf(n, i, FromNat(x), FromNat(m))
Bound(i) == CHOOSE x \in 0..m : /\ LE(FromNat(v), F(i, x))
                                /\ \A y \in 0..(x - 1) : LT(F(i, y), FromNat(v))
B == [i \in 1..n |-> Bound(i)]
Statistic(f) == MinOf(PValues([j \in 1..n |-> FromNat(f[j])], FromNat(m)))
Below == {f \in [1..n -> 1..m] : LT(Statistic(f), FromNat(v))}
(* A sample of cells c stands for points at the upper ends of the cells; the crossing count is about points inside. *)
Thresholds == \A f \in [1..n -> 1..m] :
  (f \in Below) <=> \E i \in 1..n : OrderStat(f, n, m, i) < B[i]
Short == \A f \in [1..n -> 1..m] : ShortStatistic([j \in 1..n |-> FromNat(f[j])], FromNat(m)) = Statistic(f)
Cdf == \A i \in 1..n : /\ F(i, 0) = <<>> /\ F(i, m) = Total(n, m)
                       /\ \A x \in 1..m : LE(F(i, x - 1), F(i, x))
                       /\ \A x \in 0..m : i < n => LE(F(i + 1, x), F(i, x))
                       /\ \A x \in 0..m :      \* by definition
                            F(i, x) = FromNat(Cardinality({f \in [1..n -> 1..m] : OrderStat(f, n, m, i) <= x}))
Increasing == \A i \in 1..(n - 1) : B[i] <= B[i + 1]
Count2 == B[1] > 0 =>
  Crossed([i \in 1..n |-> FromNat(B[i])], FromNat(m))
    = FromNat(Cardinality({f \in [1..n -> 1..m] : \E i \in 1..n : OrderStat(f, n, m, i) <= B[i]}))
=============================================================================
