------------------------------ MODULE TinyMT ------------------------------
(* The generator TinyMT64 of Saito and Matsumoto.  A state is              *)
(* [s0, s1, mat1, mat2, tmat]; 64-bit words are numbers of BigNat.         *)
EXTENDS Integers, Sequences, BigNat

Two64 == Shl(<<1>>, 64)
W64(x)       == Mod(x, Two64)
Plus(x, y)   == W64(Add(x, y))
Minus(x, y)  == W64(Sub(Add(x, Two64), y))
Times(x, y)  == W64(Mul(x, y))
Left(x, k)   == W64(Shl(x, k))
Right(x, k)  == Shr(x, k)
Odd(x)       == And(x, <<1>>) # <<>>
Low63(x)     == Mod(x, Shl(<<1>>, 63))

(* The constants are sums of 10^k parts, TLC's integers having 31 bits. *)
Const(parts) == LET RECURSIVE F(_)
                    F(i) == IF i = 0 THEN <<>> ELSE Add(Mul(F(i - 1), FromNat(100000000)), FromNat(parts[i]))
                IN F(Len(parts))
Mult6364 == Const(<<636, 41362238, 46793005>>)
Mult2173 == Const(<<21732, 92883993>>)
Mult5888 == Const(<<5, 88855653, 29898161>>)

NextState(g) ==
  LET a  == Low63(g.s0)
      x1 == Xor(a, g.s1)
      x2 == Xor(x1, Left(x1, 12))
      x3 == Xor(x2, Right(x2, 32))
      x4 == Xor(x3, Left(x3, 32))
      x  == Xor(x4, Left(x4, 11))
  IN [g EXCEPT !.s0 = IF Odd(x) THEN Xor(g.s1, g.mat1) ELSE g.s1,
               !.s1 = IF Odd(x) THEN Xor(x, Shl(g.mat2, 32)) ELSE x]

Temper(g) == LET x == Xor(Plus(g.s0, g.s1), Right(g.s0, 8))
             IN IF Odd(x) THEN Xor(x, g.tmat) ELSE x

AllZero(g) == Low63(g.s0) = <<>> /\ g.s1 = <<>>
Certify(g) == IF AllZero(g) THEN [g EXCEPT !.s0 = <<84>>, !.s1 = <<77>>] ELSE g      \* 'T', 'M'

RECURSIVE Mix(_, _)
Mix(g, i) ==
  IF i = 8 THEN g
  ELSE LET other == IF i % 2 = 1 THEN g.s0 ELSE g.s1
           v == Plus(FromNat(i), Times(Mult6364, Xor(other, Right(other, 62))))
       IN Mix(IF i % 2 = 1 THEN [g EXCEPT !.s1 = Xor(@, v)] ELSE [g EXCEPT !.s0 = Xor(@, v)], i + 1)

Seeded(p, seed) ==
  Certify(Mix([s0 |-> Xor(seed, Shl(p.mat1, 32)), s1 |-> Xor(p.mat2, p.tmat),
               mat1 |-> p.mat1, mat2 |-> p.mat2, tmat |-> p.tmat], 1))

(* Seeding by an array of keys: st is a ring of four words. *)
F1(x) == Times(Xor(x, Right(x, 59)), Mult2173)
F2(x) == Times(Xor(x, Right(x, 59)), Mult5888)
At(st, i) == st[(i % 4) + 1]
Put(st, i, v) == [st EXCEPT ![(i % 4) + 1] = v]

RECURSIVE Absorb(_, _, _, _, _)
Absorb(st, i, j, count, key) ==
  IF j >= count THEN <<st, i>>
  ELSE LET r1 == F1(Xor(Xor(At(st, i), At(st, i + 1)), At(st, i + 3)))
           a  == Put(st, i + 1, Plus(At(st, i + 1), r1))
           r2 == Plus(r1, Plus(FromNat(i), IF j < Len(key) THEN key[j + 1] ELSE <<>>))
           b  == Put(a, i + 2, Plus(At(a, i + 2), r2))
       IN Absorb(Put(b, i, r2), (i + 1) % 4, j + 1, count, key)

RECURSIVE Stir(_, _, _)
Stir(st, i, j) ==
  IF j = 4 THEN st
  ELSE LET r1 == F2(Plus(Plus(At(st, i), At(st, i + 1)), At(st, i + 3)))
           a  == Put(st, i + 1, Xor(At(st, i + 1), r1))
           r2 == Minus(r1, FromNat(i))
           b  == Put(a, i + 2, Xor(At(a, i + 2), r2))
       IN Stir(Put(b, i, r2), (i + 1) % 4, j + 1)

SeededByArray(p, key) ==
  LET st0 == <<<<>>, p.mat1, p.mat2, p.tmat>>
      r1  == F1(Xor(Xor(st0[1], st0[2]), st0[4]))
      st1 == Put(st0, 1, Plus(At(st0, 1), r1))
      r2  == Plus(r1, FromNat(Len(key)))
      st2 == Put(st1, 2, Plus(At(st1, 2), r2))
      st3 == Put(st2, 0, r2)
      count == (IF Len(key) + 1 > 8 THEN Len(key) + 1 ELSE 8) - 1
      ab  == Absorb(st3, 1, 0, count, key)
      st  == Stir(ab[1], ab[2], 0)
  IN Certify([s0 |-> Xor(st[1], st[2]), s1 |-> Xor(st[3], st[4]),
              mat1 |-> p.mat1, mat2 |-> p.mat2, tmat |-> p.tmat])

(* What is drawn in a state, as a fraction num / 2^shift. *)
High(g) == Right(Temper(g), 12)
Top52   == Shl(<<1>>, 52)
Drawn(kind, g) ==
  CASE kind = "u64"    -> <<Temper(g), <<1>>>>
    [] kind = "d01"    -> <<High(g), Top52>>
    [] kind = "d12"    -> <<Add(Top52, High(g)), Top52>>
    [] kind = "dOC"    -> <<Sub(Top52, High(g)), Top52>>
    [] kind = "dOO"    -> <<IF Odd(High(g)) THEN High(g) ELSE Add(High(g), <<1>>), Top52>>
    [] kind = "double" -> <<Temper(g), Two64>>
=============================================================================
