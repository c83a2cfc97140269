-------------------------------- MODULE Exp --------------------------------
(* e^(p/q) as a fixed-point number with W fractional bits, for p, q in     *)
(* BigNat.  The relative error is below 2^-200 for p/q < 2^30.             *)
EXTENDS Integers, Sequences, BigNat
W == 320

RECURSIVE Halvings(_, _, _)
Halvings(p, q, j) == IF LT(p, Shl(q, j)) THEN j ELSE Halvings(p, q, j + 1)

RECURSIVE Taylor(_, _, _, _)
Taylor(x, term, sum, i) ==
  IF term = <<>> THEN sum
  ELSE LET t == Div(Shr(Mul(term, x), W), FromNat(i)) IN Taylor(x, t, Add(sum, t), i + 1)

RECURSIVE Squares(_, _)
Squares(y, j) == IF j = 0 THEN y ELSE Squares(Shr(Mul(y, y), W), j - 1)

Exp(p, q) ==
  LET j == Halvings(p, q, 0)
      x == Div(Shl(p, W), Shl(q, j))
      one == Shl(<<1>>, W)
  IN Squares(Taylor(x, one, one, 1), j)
=============================================================================
