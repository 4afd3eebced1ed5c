------------------------------- MODULE Real64 -------------------------------
(* IEEE-754 double precision numbers.  A real is given by a numeral (string),  *)
(* an integer or its bit pattern <<hi, lo>>.  TLC evaluates the operators by   *)
(* means of the Java overrides in java/especia/Real64.java; the definitions    *)
(* here state their signature only (CHOOSE: any fixed function), except for    *)
(* the vector operators, whose definitions are equivalent.                     *)
EXTENDS Integers, Sequences

LOCAL Any(x) == CHOOSE y : y = x

R(x) == Any(x)
RAdd(x, y) == Any(<<"+", x, y>>)
RSub(x, y) == Any(<<"-", x, y>>)
RMul(x, y) == Any(<<"*", x, y>>)
RDiv(x, y) == Any(<<"/", x, y>>)
RNeg(x) == Any(<<"neg", x>>)
RAbs(x) == Any(<<"abs", x>>)
RSqrt(x) == Any(<<"sqrt", x>>)
RExp(x) == Any(<<"exp", x>>)
RLog(x) == Any(<<"log", x>>)
RPow(x, y) == Any(<<"pow", x, y>>)
RCosh(x) == Any(<<"cosh", x>>)
RErf(x) == Any(<<"erf", x>>)
RFloor(x) == Any(<<"floor", x>>)
RCeil(x) == Any(<<"ceil", x>>)
RInt(x) == Any(0)                    \* truncation to an integer
RLt(x, y) == Any(TRUE)
RLe(x, y) == Any(TRUE)
REq(x, y) == Any(TRUE)
RIsFinite(x) == Any(TRUE)
RIsNaN(x) == Any(TRUE)
\* |x - y| <= atol + rtol * max(|x|, |y|); NaN is close to NaN
RClose(x, y, rtol, atol) == Any(TRUE)
RFixed(x, p) == Any("0.0")           \* decimal numeral with p decimals
RSci(x, p) == Any("0.0e+00")         \* scientific numeral with p decimals
RStr(x) == Any("0.0")
VStr(x) == Any("0.0")

x \oplus y == RAdd(x, y)
x \ominus y == RSub(x, y)
x \otimes y == RMul(x, y)
x \oslash y == RDiv(x, y)
x \prec y == RLt(x, y)
x \preceq y == RLe(x, y)
RSq(x) == RMul(x, x)
RMax(x, y) == IF RLt(x, y) THEN y ELSE x
RMin(x, y) == IF RLt(y, x) THEN y ELSE x

\* Vectors are sequences of reals
V(x) == [i \in 1 .. Len(x) |-> R(x[i])]
VAdd(x, y) == [i \in 1 .. Len(x) |-> RAdd(x[i], y[i])]
VSub(x, y) == [i \in 1 .. Len(x) |-> RSub(x[i], y[i])]
VMul(x, y) == [i \in 1 .. Len(x) |-> RMul(x[i], y[i])]
VDiv(x, y) == [i \in 1 .. Len(x) |-> RDiv(x[i], y[i])]
VScale(s, x) == [i \in 1 .. Len(x) |-> RMul(s, x[i])]
VExp(x) == [i \in 1 .. Len(x) |-> RExp(x[i])]
RECURSIVE VSum(_)
VSum(x) == IF x = <<>> THEN R(0) ELSE RAdd(VSum(SubSeq(x, 1, Len(x) - 1)), x[Len(x)])
VDot(x, y) == VSum(VMul(x, y))
VMaxAbs(x) == CHOOSE m \in {RAbs(x[i]) : i \in 1 .. Len(x)} : \A i \in 1 .. Len(x) : RLe(RAbs(x[i]), m)
VClose(x, y, rtol, atol) == Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : RClose(x[i], y[i], rtol, atol)
=============================================================================
