----------------------------- MODULE SectionModel -----------------------------
(* Design properties of the convolution and of the continuum:                   *)
(* the kernel is the integral of a normalized Gaussian of the given half width, *)
(* constants stay constant up to the truncated wings, straight lines are        *)
(* preserved inside, the convolution is linear, and no other combination of     *)
(* Legendre polynomials fits better than the continuum.                         *)
EXTENDS Sections

CONSTANT Depth

VARIABLES q,   \* half width in units of a hundredth of the spacing
          a, b \* selectors of transmissions
vars == <<q, a, b>>

H == R(q) \oslash R(100)
W == R(1)
M == RInt(RFloor(R(4) \otimes (H \oslash W))) + 1
K == Kernel(H, W, M)
N == 12

Gauss(x) == (RSqrt(RLog(R(2)) \oslash Pi) \oslash H) \otimes RExp(RNeg(RLog(R(2)) \otimes RSq(x \oslash H)))

\* composite Simpson rule over the j-th spacing
Simpson(f(_), j) ==
  LET n == 64
      x(i) == R(j - 1) \oplus (R(i) \oslash R(n))
  IN VSum([i \in 1 .. n + 1 |-> (CASE i = 1 \/ i = n + 1 -> R(1) [] i % 2 = 0 -> R(4) [] OTHER -> R(2)) \otimes f(x(i - 1))]) \oslash R(3 * n)

Trans(s) ==
  [i \in 1 .. N |-> CASE s = 1 -> R("0.75")
                      [] s = 2 -> R(i) \oslash R(10)
                      [] s = 3 -> R((i * i * 7) % 10) \oslash R(10)
                      [] s = 4 -> IF i = 6 THEN R(0) ELSE R(1)
                      [] OTHER -> R((i * i * i + 3) % 13) \oslash R(13)]
Conv(t) == TLCEval([i \in 1 .. N |-> Convolved(t, N, K, W, i)])

Init == q \in {26 + 7 * i : i \in 0 .. Depth} /\ a \in 1 .. 5 /\ b \in 1 .. 5
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

HalfMaximum == RClose(Gauss(H), R("0.5") \otimes Gauss(R(0)), R("1e-12"), R(0))
KernelIsIntegral ==
  a = 1 /\ b = 1 => \A j \in 1 .. Len(K.dp) :
    /\ RClose(K.dp[j], Simpson(Gauss, j), R("1e-6"), R("1e-7"))
    /\ RClose(K.dq[j], Simpson(LAMBDA x : x \otimes Gauss(x), j), R("1e-6"), R("1e-7"))
Mass == R(2) \otimes VSum(K.dp)
Normalized == Mass \prec R(1) /\ (q >= 100 => R("0.99") \prec Mass)
ConstantsStay == a = 1 => \A i \in 1 .. N : RClose(Conv(Trans(1))[i], Mass \otimes R("0.75"), R("1e-12"), R(0))
LinesStay == a = 2 => LET t == Conv(Trans(2)) IN \A i \in 1 .. N : (i > M /\ i + M <= N) => RClose(t[i], Mass \otimes Trans(2)[i], R("1e-12"), R(0))
Linear == LET s == Conv(Trans(a))
              t == Conv(Trans(b))
              u == Conv(VAdd(VScale(R("0.3"), Trans(a)), VScale(R("0.6"), Trans(b))))
          IN VClose(u, VAdd(VScale(R("0.3"), s), VScale(R("0.6"), t)), R("1e-12"), R("1e-13"))

\* continuum
Sec == Section([i \in 1 .. N |-> [wav |-> R(100 + i), flx |-> Trans(a)[i] \oplus R(2), unc |-> R(1 + ((i * q) % 3)), msk |-> (i + q) % 5 # 0]])
Chi(cfl, cat) ==
  LET is == SetToSortSeq(Valid(Sec), LAMBDA x, y : x < y)
      v == TLCEval(VDiv(VSub(Pick(Sec.flx, is), VMul(Pick(cfl, is), Pick(cat, is))), Pick(Sec.unc, is)))
  IN VDot(v, v)
Optimal ==
  b \in 1 .. 4 /\ q % 2 = 0 =>
  LET cat == TLCEval(VAdd(VScale(R("0.5"), Trans(3)), [i \in 1 .. N |-> R("0.5")]))
      cfl == TLCEval(Continuum(Sec, b, cat))
      L == TLCEval(LegendreBasis(Sec, b))
      best == TLCEval(Chi(cfl, cat))
  IN \A k \in 1 .. b : \A e \in {"1e-3", "-1e-3", "0.1"} : best \preceq Chi(VAdd(cfl, VScale(R(e), L[k])), cat)
===============================================================================
