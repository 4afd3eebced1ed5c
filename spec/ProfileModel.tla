---------------------------- MODULE ProfileModel ----------------------------
(* Design properties of the profile functions: both approximations are          *)
(* normalized and close to the convolution of a Gaussian and a Lorentzian.      *)
EXTENDS Profiles

CONSTANT Last
VARIABLE k     \* ratio of Lorentzian and Gaussian widths
Ratio == <<"0.01", "0.05", "0.1", "0.2", "0.3", "0.4", "0.5", "0.7", "0.8", "1", "1.25", "1.5", "2", "3", "5", "10">>

Init == k \in 1 .. Last
Next == UNCHANGED k
Spec == Init /\ [][Next]_k

B == R(1)
D == R(Ratio[k])
Wt(i, n) == CASE i = 1 \/ i = n + 1 -> R(1) [] i % 2 = 0 -> R(4) [] OTHER -> R(2)

\* the Voigt function: the integral of Gaussian(t) Lorentzian(x - t) over -6 .. 6; for narrow Lorentzians with
\* the substitution t = x + d tan(s): average of the Gaussian over s, uniformly in -pi/2 .. pi/2
Tan(s) == LET \* from sin and cos series via the complex exponential: tan(s) by continued fraction
              T[m \in 0 .. 20] == IF m = 20 THEN R(41) ELSE R(2 * m + 1) \ominus (RSq(s) \oslash T[m + 1])
          IN s \oslash T[0]
N == 2000
Angles == [i \in 1 .. N |-> ((R(2 * i - 1) \oslash R(2 * N)) \ominus R("0.5")) \otimes Pi_]
Tans == TLCEval([i \in 1 .. N |-> Tan(Angles[i])])
Voigt(x, d, tans) == VSum([i \in 1 .. N |-> Gaussian(x \oplus (d \otimes tans[i]), B)]) \oslash R(N)

Xs == <<"0", "0.1", "0.25", "0.5", "0.75", "1", "1.5", "2", "2.5", "3", "4", "6", "10">>
Close(A, tol) ==
  LET tans == Tans
      top == TLCEval(Voigt(R(0), D, tans))
  IN \A i \in 1 .. Len(Xs) : RAbs(Shape(A, R(Xs[i])) \ominus Voigt(R(Xs[i]), D, tans)) \preceq (tol \otimes top)
PseudoIsClose == Close(PseudoVoigt(B, D), R("0.015"))
ExtendedIsClose == Close(ExtendedPseudoVoigt(B, D), R("0.0012"))

Integral(A) ==
  LET n == 2000
      last == R(18)
      e(i) == RExp(last \otimes (R(i - 1) \oslash R(n)))
  IN R(2) \otimes ((VSum([i \in 1 .. n + 1 |-> Wt(i, n) \otimes (e(i) \otimes Shape(A, e(i) \ominus R(1)))]) \otimes last) \oslash R(3 * n))
Normalized == /\ RClose(Integral(PseudoVoigt(B, D)), R(1), R("1e-5"), R(0))
              /\ RClose(Integral(ExtendedPseudoVoigt(B, D)), R(1), R("1e-5"), R(0))
===============================================================================
