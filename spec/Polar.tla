--------------------------------- MODULE Polar ---------------------------------
(* Normal deviates by the polar method (Knuth, Algorithm P): pairs of uniform    *)
(* deviates are mapped to the square, pairs outside the unit disk and its center *)
(* are rejected, any other yields two deviates.                                  *)
EXTENDS Integers, Sequences, TLC, Real64

Center(u) == (R(2) \otimes u) \ominus R(1)
Square(u, v) == LET x == Center(u)
                    y == Center(v)
                IN [x |-> x, y |-> y, t |-> RSq(x) \oplus RSq(y)]
Accepted(p) == p.t \prec R(1) /\ R(0) \prec p.t
Deviates(p) == LET f == RSqrt(RNeg(R(2)) \otimes (RLog(p.t) \oslash p.t)) IN <<p.x \otimes f, p.y \otimes f>>

\* the deviates that the uniform stream u gives
RECURSIVE Normal(_)
Normal(u) ==
  IF Len(u) < 2 THEN <<>>
  ELSE LET p == TLCEval(Square(u[1], u[2]))
       IN (IF Accepted(p) THEN TLCEval(Deviates(p)) ELSE <<>>) \o Normal(SubSeq(u, 3, Len(u)))
===============================================================================
