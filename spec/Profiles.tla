------------------------------- MODULE Profiles -------------------------------
(* Optical depth of absorption lines.  A line is given by its parameters        *)
(*   1 rest wavelength (Angstrom), 2 oscillator strength, 3 redshift,           *)
(*   4 radial velocity (km/s), 5 broadening velocity (km/s), 6 logarithm of the *)
(*   column density (cm-2), and                                                 *)
(*   Voigt: 7 damping constant (1/s);  many-multiplet: 7 relativistic           *)
(*   correction coefficient (1/cm), 8 variation of the fine-structure constant  *)
(*   (1e-6).                                                                    *)
EXTENDS Integers, Sequences, TLC, Real64

Pi_ == R("3.14159265358979323846")
SqrtPi == RSqrt(Pi_)
SqrtLn2 == RSqrt(RLog(R(2)))
Light == R("299792458.0")                     \* m/s
LightKm == R("299792.458")                    \* km/s
\* pi e^2 / (4 pi eps0 m c^2), for wavelengths in Angstrom and column densities in cm-2
Strength ==
  (R("1e-6") \otimes RSq(R("1.6021766208e-19"))) \oslash
    (R(4) \otimes (R("8.854187817e-12") \otimes (R("9.10938356e-31") \otimes RSq(Light))))
Damping == R("1e-10") \oslash (R(4) \otimes (Pi_ \otimes Light))

\* c0 + c1 x + c2 x^2 + ...
Poly(x, cs) == LET P[i \in 1 .. Len(cs)] == IF i = Len(cs) THEN R(cs[i]) ELSE R(cs[i]) \oplus (x \otimes P[i + 1]) IN P[1]

(***************************************************************************)
(* Normalized functions of the distance x from the center                  *)
(***************************************************************************)
Gaussian(x, g) == RExp(RNeg(RSq(x \oslash g))) \oslash (SqrtPi \otimes g)
Lorentzian(x, g) == R(1) \oslash ((Pi_ \otimes g) \otimes (R(1) \oplus RSq(x \oslash g)))
Irrational(x, g) == R(1) \oslash ((R(2) \otimes g) \otimes RPow(R(1) \oplus RSq(x \oslash g), R("1.5")))
Sech2(x, g) == R(1) \oslash ((R(2) \otimes g) \otimes RSq(RCosh(x \oslash g)))

\* Ida, Ando and Toraya (2000): pseudo-Voigt
PseudoVoigt(b, d) ==
  LET r == SqrtLn2 \otimes (b \oslash d)
      h == R(1) \oslash RPow(Poly(r, <<"1", "0.07842", "4.47163", "2.42843", "2.69296", "1">>), R("0.2"))
      gl == d \oslash h
  IN TLCEval([kind |-> "pseudo", gl |-> gl, gg |-> gl \oslash SqrtLn2, eta |-> h \otimes Poly(h, <<"1.36603", "-0.47719", "0.11116">>)])

\* Ida, Ando and Toraya (2000): extended pseudo-Voigt
ExtendedPseudoVoigt(b, d) ==
  LET g == (SqrtLn2 \otimes b) \oplus d
      r == d \oslash g
      s == R(1) \ominus r
      wg == R(1) \ominus (r \otimes Poly(r, <<"0.66000", "0.15021", "-1.24984", "4.74052", "-9.48291", "8.48252", "-2.95553">>))
      wl == R(1) \ominus (s \otimes Poly(r, <<"-0.42179", "-1.25693", "10.30003", "-23.45651", "29.14158", "-16.50453", "3.19974">>))
      wi == Poly(r, <<"1.19913", "1.43021", "-15.36331", "47.06071", "-73.61822", "57.92559", "-17.80614">>)
      wp == Poly(r, <<"1.10186", "-0.47745", "-0.68688", "2.76622", "-4.55466", "4.05475", "-1.26571">>)
      el == r \otimes (R(1) \oplus (s \otimes Poly(r, <<"-0.30165", "-1.38927", "9.31550", "-24.10743", "34.96491", "-21.18862", "3.70290">>)))
      ei == (r \otimes s) \otimes Poly(r, <<"0.25437", "-0.14107", "3.23653", "-11.09215", "22.10544", "-24.12407", "9.76947">>)
      ep == (r \otimes s) \otimes Poly(r, <<"1.01579", "1.50429", "-9.21815", "23.59717", "-39.71134", "32.83023", "-10.02142">>)
  IN TLCEval([kind |-> "extended",
              gg |-> (g \otimes wg) \oslash SqrtLn2,
              gl |-> g \otimes wl,
              gi |-> (g \otimes wi) \oslash RSqrt(RPow(R(2), R(2) \oslash R(3)) \ominus R(1)),
              gp |-> (g \otimes wp) \oslash RLog(RSqrt(R(2)) \oplus R(1)),
              el |-> el, ei |-> ei, ep |-> ep])

Shape(A, x) ==
  CASE A.kind = "gauss" -> IF RAbs(x) \prec (R(4) \otimes A.b) THEN Gaussian(x, A.b) ELSE R(0)
    [] A.kind = "pseudo" -> ((R(1) \ominus A.eta) \otimes Gaussian(x, A.gg)) \oplus (A.eta \otimes Lorentzian(x, A.gl))
    [] OTHER -> (((((R(1) \ominus A.el) \ominus A.ei) \ominus A.ep) \otimes Gaussian(x, A.gg)) \oplus (A.el \otimes Lorentzian(x, A.gl)))
                \oplus ((A.ei \otimes Irrational(x, A.gi)) \oplus (A.ep \otimes Sech2(x, A.gp)))

(***************************************************************************)
(* Lines                                                                   *)
(***************************************************************************)
Count(fn) == CASE fn = "doppler" -> 6 [] fn \in {"voigt", "xvoigt"} -> 7 [] OTHER -> 8

\* the rest wavelength (many-multiplet: wave number shifted by q ((1 + da)^2 - 1))
Rest(fn, q) ==
  IF fn = "mm"
  THEN LET da == q[8] \otimes R("1e-6")
       IN R("1e8") \oslash ((R("1e8") \oslash q[1]) \oplus (q[7] \otimes (da \otimes (da \oplus R(2)))))
  ELSE q[1]

Line(fn, q) ==
  LET u == Rest(fn, q)
      z == (R(1) \oplus q[3]) \otimes (R(1) \oplus (q[4] \oslash LightKm))
      c == u \otimes z
      b == (q[5] \otimes c) \oslash LightKm
      a == (Strength \otimes q[2]) \otimes (RPow(R(10), q[6]) \otimes (u \otimes c))
  IN TLCEval([u |-> u, z |-> z, c |-> c, b |-> b, a |-> a,
              shape |-> CASE fn = "voigt" -> PseudoVoigt(b, Damping \otimes (q[7] \otimes (u \otimes c)))
                          [] fn = "xvoigt" -> ExtendedPseudoVoigt(b, Damping \otimes (q[7] \otimes (u \otimes c)))
                          [] OTHER -> [kind |-> "gauss", b |-> b]])

\* optical depth of a line at distances x from its center, and at wavelengths x
DepthOff(L, x) == [i \in 1 .. Len(x) |-> L.a \otimes Shape(L.shape, x[i])]
DepthOf(L, x) == [i \in 1 .. Len(x) |-> L.a \otimes Shape(L.shape, x[i] \ominus L.c)]

RECURSIVE Total(_, _)
Total(Ls, x) ==
  IF Ls = <<>> THEN TLCEval([i \in 1 .. Len(x) |-> R(0)])
  ELSE LET n == Len(Ls)
           t == TLCEval(Total(SubSeq(Ls, 1, n - 1), x))
           y == TLCEval(DepthOf(Ls[n], x))
       IN TLCEval(VAdd(t, y))

(***************************************************************************)
(* Equivalent width (in units of prefix Angstrom) at rest of the observer's *)
(* line: twice the integral of 1 - exp(-tau) from the center, divided by    *)
(* the redshift factor.  Simpson's rule in v, where x = b (exp(v) - 1).     *)
(***************************************************************************)
EquivalentWidth(L, prefix) ==
  LET n == 600
      last == IF L.shape.kind = "gauss" THEN RLog(R(5)) ELSE R(16)
      v == TLCEval([i \in 1 .. n + 1 |-> last \otimes (R(i - 1) \oslash R(n))])
      e == TLCEval(VExp(v))
      x == TLCEval([i \in 1 .. n + 1 |-> IF i = n + 1 /\ L.shape.kind = "gauss" THEN R("3.9999999999999") \otimes L.b ELSE L.b \otimes (e[i] \ominus R(1))])
      t == TLCEval(DepthOff(L, x))
      f == TLCEval(VExp([i \in 1 .. n + 1 |-> RNeg(t[i])]))
      y == TLCEval([i \in 1 .. n + 1 |-> ((R(1) \ominus f[i]) \otimes (L.b \otimes e[i])) \otimes
                       (CASE i = 1 \/ i = n + 1 -> R(1) [] i % 2 = 0 -> R(4) [] OTHER -> R(2))])
  IN ((R(2) \otimes ((VSum(y) \otimes last) \oslash R(3 * n))) \oslash prefix) \oslash L.z

\* The value that adaptive integration (with its default settings) gives, which in rare cases
\* stops too early because two rules agree by accident
Q == INSTANCE Integrator
AdaptiveWidth(L, prefix) ==
  LET D(x) == LET t == TLCEval(DepthOff(L, x)) IN [i \in 1 .. Len(x) |-> R(1) \ominus RExp(RNeg(t[i]))]
      T(u) == Q!Transformed(D, u)
  IN ((R(2) \otimes Q!Integral("19", "27", T, R(0), R(1), R("1e-6"), 100)) \oslash prefix) \oslash L.z

\* ew is known up to the number given as precision
WidthOk(ew, L, prefix, precision) ==
  \/ RClose(ew, EquivalentWidth(L, prefix), R("4e-3"), precision \oplus (R("3e-5") \oslash prefix))
  \/ RClose(ew, AdaptiveWidth(L, prefix), R("1e-6"), precision \oplus (R("1e-9") \oslash prefix))
===============================================================================
