------------------------------ MODULE MnPlus ------------------------------
(* The statistic M_n^+ of benchmarks/exactbj.py: the smallest of the one-  *)
(* sided p-values Pr[U_(i) < x_(i)] of the sorted sample x.                *)
(* Places are numbers of BigNat in units of which T make up [0,1].         *)
EXTENDS Crossing

(* Pr[U_(i) <= x/T], as a multiple of 1/T^n: at least i of n points lie below. *)
AtLeast(n, i) == IF i = n THEN <<<<n, 1>>>> ELSE <<<<i, 1>>, <<n - i, 2>>>>
OrderCdf(n, i, x, T) == CountAt(<<x, T>>, n, 2, <<>>, AtLeast(n, i))

\* places in increasing order
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>> ELSE IF LE(x, Head(q)) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), x)
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE Insert(Sorted(Tail(q)), Head(q))
PValues(q, T) == LET z == Sorted(q) IN [i \in 1..Len(q) |-> OrderCdf(Len(q), i, z[i], T)]
MinOf(v) == LET S == {v[i] : i \in DOMAIN v} IN CHOOSE x \in S : \A y \in S : LE(x, y)

(* The cdfs decrease in i, so of equal points the last one decides; which places there are is enough. *)
Upto(q, x) == Cardinality({j \in 1..Len(q) : LE(q[j], x)})
ShortStatistic(q, T) == LET X == {q[j] : j \in 1..Len(q)} IN MinOf([x \in X |-> OrderCdf(Len(q), Upto(q, x), x, T)])

(* Pr[some U_(i) < b_i], as a multiple of 1/T^n.  b: places in increasing order. *)
RECURSIVE Places(_)
Places(b) == IF Len(b) <= 1 THEN b ELSE IF b[1] = b[2] THEN Places(Tail(b)) ELSE <<b[1]>> \o Places(Tail(b))
LevelOf(P, x) == CHOOSE k \in DOMAIN P : P[k] = x
Crossed(b, T) ==
  LET n == Len(b)
      P == Places(b)
      at == IF P[Len(P)] = T THEN P ELSE P \o <<T>>
      z == [i \in 1..n |-> <<1, LevelOf(P, b[i])>>]
  IN Sub(TotalAt(at, n, Len(at)), CountAt(at, n, Len(at), z, <<>>))
=============================================================================
