---------------------------- MODULE CrossingMC ----------------------------
(* Exhaustive check of module Crossing on small grids: the level-by-level  *)
(* count is the definition, and the counts have the symmetries, bounds,    *)
(* additivity and monotonicity that the properties C01-C07 speak of.       *)
EXTENDS Crossing, TLC
CONSTANTS MaxN, MaxM
VARIABLES n, m, b, B
vars == <<n, m, b, B>>

Mono(k, top) == {s \in [1..k -> 0..top] : \A i \in 1..(k-1) : s[i] <= s[i+1]}

Init == n = 0 /\ m = 1 /\ b = <<>> /\ B = <<>>
Next == /\ n = 0 /\ m = 1
        /\ n' \in 0..MaxN /\ m' \in 1..MaxM /\ n' + m' > 1
        /\ b' \in Mono(n', m') \cup {<<>>}
        /\ B' \in UNION {Mono(k, m') : k \in 0..n'}      \* short second lists: crossprob_mc

C(bb, BB) == Count(n, m, Runs(bb), Runs(BB))

DefOK == FromNat(CountDef(n, m, b, B)) = C(b, B)
BoundedOK == LE(C(b, B), Total(n, m))
FreeOK == /\ C(<<>>, <<>>) = Total(n, m)
          /\ C([i \in 1..n |-> 0], [i \in 1..n |-> m]) = Total(n, m)
InfeasibleOK == (\E i \in 1..Min2(Len(b), Len(B)) : b[i] >= B[i]) => C(b, B) = <<>>
ReflectOK == Len(B) = n => Count(n, m, Reflect(m, Runs(B)), Reflect(m, Runs(b))) = C(b, B)
TrivialOK == Len(B) = n =>
             /\ (b = <<>> => C(b, B) = C([i \in 1..n |-> 0], B))
             /\ (Len(b) = n => C(b, <<>>) = C(b, [i \in 1..n |-> m]))

(* Cells of different widths are a finer grid of which not all levels occur. *)
RECURSIVE SumTo(_, _)
SumTo(w, k) == IF k = 0 THEN 0 ELSE w[k] + SumTo(w, k - 1)
PlacesOK == \A w \in [1..m -> {1, 3}] :
  LET at == [l \in 1..m |-> FromNat(SumTo(w, l))]
      Fine(s) == [i \in DOMAIN s |-> SumTo(w, s[i])]
      M == SumTo(w, m)
  IN /\ CountAt(at, n, m, Runs(b), Runs(B)) = Count(n, M, Runs(Fine(b)), Runs(Fine(B)))
     /\ TotalAt(at, n, m) = Total(n, M)

(* Straight lines, where the state leaves room for them. *)
LineOK == (n > 0 /\ b = <<>> /\ B = <<>>) =>
  \A mm \in 1..(4 * MaxM), a \in 1..4, k \in 0..n :
    (n - k) * a <= mm =>
      /\ LineCount(n, k, a, mm) = Count(n, mm, LineRuns(n, k, a), <<>>)
      /\ LineCount(n, k, a, mm) = Count(n, mm, <<>>, Reflect(mm, LineRuns(n, k, a)))

Clip(s, lo, hi) == [i \in DOMAIN s |-> Max2(lo, Min2(hi, s[i]))]
CutLow(BB, i, t)  == [j \in DOMAIN BB |-> IF j <= i THEN Min2(BB[j], t) ELSE BB[j]]
CutHigh(bb, i, t) == [j \in DOMAIN bb |-> IF j >= i THEN Max2(bb[j], t) ELSE bb[j]]
CutOK == (Len(b) = n /\ Len(B) = n) =>
  \A i \in 1..n, t \in 0..m :
    C(b, B) = Add(C(b, CutLow(B, i, t)), C(CutHigh(b, i, t), B))
TightenOK == (Len(b) = n /\ Len(B) = n) =>
  \A i \in 1..n : /\ (\A t \in b[i]..m : LE(C(CutHigh(b, i, t), B), C(b, B)))
                  /\ (\A t \in 0..B[i] : LE(C(b, CutLow(B, i, t)), C(b, B)))
=============================================================================
