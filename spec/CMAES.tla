-------------------------------- MODULE CMAES --------------------------------
(* The evolution strategy with covariance matrix adaption used by Especia:     *)
(* Hansen & Ostermeier (2001), Hansen (2014).  Operators on states             *)
(*                                                                             *)
(*   [x: mean, s: global step size, d: local step sizes, B: principal axes     *)
(*    (column-major), C: covariance (upper triangle, column-major), pc, ps:    *)
(*    cumulation paths, g: generation]                                         *)
(*                                                                             *)
(* An individual is [x, u, v]: its parameter values, its mutation step and the *)
(* rotated (unscaled) mutation step.                                           *)
EXTENDS Integers, Sequences, Real64, TLC

Column(M, n, j) == [i \in 1 .. n |-> M[(j - 1) * n + i]]
Elem(M, n, i, j) == M[(j - 1) * n + i]        \* row i, column j
Zeros(n) == [i \in 1 .. n |-> R(0)]

Epsilon == RPow(R(2), R(-52))
MaxCondition == R("0.01") \oslash Epsilon
MinVariance == R(1) \oslash MaxCondition

(***************************************************************************)
(* Strategy parameters: functions of the problem dimension n and the       *)
(* number of parents mu.                                                   *)
(***************************************************************************)
Weights(mu) == [i \in 1 .. mu |-> RLog((R(mu) \oplus R("0.5")) \oslash R(i))]

Strategy(n, mu) ==
  LET w == TLCEval(Weights(mu))
      ws == VSum(w)
      wv == RSq(ws) \oslash VDot(w, w)
      N == R(n)
      cs == (R(2) \oplus wv) \oslash (R(5) \oplus N \oplus wv)
      cc == (R(4) \oplus (wv \oslash N)) \oslash (R(4) \oplus N \oplus ((R(2) \otimes wv) \oslash N))
      acov == R(2) \oslash (RSq(N \oplus R("1.3")) \oplus wv)
      ccov == RMin(R(1) \ominus acov,
                   (R(2) \otimes (wv \ominus R(2) \oplus (R(1) \oslash wv)))
                      \oslash (RSq(N \oplus R(2)) \oplus wv))
      damp == cs \oplus R(1) \oplus
                (R(2) \otimes RMax(R(0), RSqrt((wv \ominus R(1)) \oslash (N \oplus R(1))) \ominus R(1)))
  IN TLCEval([w |-> w, ws |-> ws, wv |-> wv, cs |-> cs, cc |-> cc, acov |-> acov, ccov |-> ccov, damp |-> damp,
      cw |-> ws \oslash RSqrt(VDot(w, w)),
      csu |-> RSqrt(cs \otimes (R(2) \ominus cs)),
      ccu |-> RSqrt(cc \otimes (R(2) \ominus cc)),
      norm |-> ((N \ominus R("0.25")) \oplus (R(1) \oslash R(21 * n))) \oslash RSqrt(N)])

(***************************************************************************)
(* The initial state.                                                      *)
(***************************************************************************)
Initial(n, x, d, s) ==
  [x |-> V(x), s |-> R(s), d |-> V(d),
   B |-> [m \in 1 .. n * n |-> IF (m - 1) \div n = (m - 1) % n THEN R(1) ELSE R(0)],
   C |-> [m \in 1 .. n * n |-> IF (m - 1) \div n = (m - 1) % n THEN RSq(d[((m - 1) % n) + 1]) ELSE R(0)],
   pc |-> Zeros(n), ps |-> Zeros(n), g |-> 0]

(***************************************************************************)
(* Sampling.  Coordinates of the principal axes system are drawn one after *)
(* the other; a coordinate is redrawn until the bounds are satisfied.  dev *)
(* is the stream of normal deviates, pos the number of deviates used.      *)
(***************************************************************************)
Within(x, lo, up) == \A i \in 1 .. Len(x) : ~(x[i] \prec lo[i]) /\ ~(up[i] \prec x[i])

Axes(S, n) == TLCEval([j \in 1 .. n |-> [b |-> Column(S.B, n, j), bd |-> VScale(S.d[j], Column(S.B, n, j))]])

RECURSIVE Draw(_, _, _, _, _, _, _, _)
Draw(S, n, bounds, axes, dev, j, ind, pos) ==
  IF j > n THEN [ind |-> ind, pos |-> pos]
  ELSE LET z == dev[pos + 1]
           u == VAdd(ind.u, VScale(z, axes[j].bd))
           x == VAdd(S.x, VScale(S.s, u))
       IN IF bounds = <<>> \/ Within(x, bounds[1], bounds[2])
          THEN Draw(S, n, bounds, axes, dev, j + 1,
                    TLCEval([x |-> x, u |-> u, v |-> VAdd(ind.v, VScale(z, axes[j].b))]), pos + 1)
          ELSE Draw(S, n, bounds, axes, dev, j, ind, pos + 1)

RECURSIVE Population(_, _, _, _, _, _, _, _)
Population(S, n, lambda, bounds, axes, dev, pos, acc) ==
  IF Len(acc) = lambda THEN [pop |-> acc, pos |-> pos]
  ELSE LET r == TLCEval(Draw(S, n, bounds, axes, dev, 1, [x |-> S.x, u |-> Zeros(n), v |-> Zeros(n)], pos))
       IN Population(S, n, lambda, bounds, axes, dev, r.pos, Append(acc, r.ind))

(***************************************************************************)
(* Selection.                                                              *)
(***************************************************************************)
Better(a, b, dir) == IF dir = "max" THEN b \prec a ELSE a \prec b
\* the indices 1 .. Len(y), best first
Ranking(y, dir) == SortSeq([k \in 1 .. Len(y) |-> k], LAMBDA a, b : Better(y[a], y[b], dir))

(***************************************************************************)
(* Recombination and adaption: the state after a generation with the       *)
(* parents sel (individuals, best first), except for B and d.              *)
(***************************************************************************)
RECURSIVE WMean(_, _, _, _)
WMean(w, vs, ws, n) ==
  LET Sum[k \in 0 .. Len(w)] == IF k = 0 THEN Zeros(n) ELSE VAdd(Sum[k - 1], VScale(w[k], vs[k]))
  IN [i \in 1 .. n |-> Sum[Len(w)][i] \oslash ws]

Adapt(S, n, P, sel) ==
  LET xw == WMean(P.w, [k \in 1 .. Len(sel) |-> sel[k].x], P.ws, n)
      uw == WMean(P.w, [k \in 1 .. Len(sel) |-> sel[k].u], P.ws, n)
      vw == WMean(P.w, [k \in 1 .. Len(sel) |-> sel[k].v], P.ws, n)
      pc == TLCEval(VAdd(VScale(R(1) \ominus P.cc, S.pc), VScale(P.ccu \otimes P.cw, uw)))
      ps == TLCEval(VAdd(VScale(R(1) \ominus P.cs, S.ps), VScale(P.csu \otimes P.cw, vw)))
      col(i) == [k \in 1 .. Len(sel) |-> sel[k].u[i]]
      cols == TLCEval([i \in 1 .. n |-> VMul(P.w, col(i))])
      raw == TLCEval([i \in 1 .. n |-> col(i)])
      Z(i, j) == VDot(cols[i], raw[j]) \oslash P.ws
      c(i, j) == Elem(S.C, n, i, j)
  IN [x |-> TLCEval(xw), pc |-> pc, ps |-> ps,
      C |-> TLCEval([m \in 1 .. n * n |->
               LET j == ((m - 1) \div n) + 1
                   i == ((m - 1) % n) + 1
               IN IF i > j THEN S.C[m]
                  ELSE (c(i, j) \oplus (P.acov \otimes ((pc[i] \otimes pc[j]) \ominus c(i, j))))
                         \oplus (P.ccov \otimes (Z(i, j) \ominus c(i, j)))]),
      s |-> S.s \otimes RExp((P.cs \oslash P.damp) \otimes ((RSqrt(VDot(ps, ps)) \oslash P.norm) \ominus R(1))),
      g |-> S.g + 1]

(***************************************************************************)
(* The principal axes B and local step sizes d represent the covariance    *)
(* matrix Cin, of which a multiple of the unit matrix is added where the   *)
(* condition number exceeds its limit, giving Cout.                        *)
(***************************************************************************)
Sym(C, n, i, j) == IF i <= j THEN Elem(C, n, i, j) ELSE Elem(C, n, j, i)
MaxDiag(C, n) == VMaxAbs([i \in 1 .. n |-> Elem(C, n, i, i)])

Orthonormal(B, n) ==
  \A j, k \in 1 .. n : j <= k =>
     RClose(VDot(Column(B, n, j), Column(B, n, k)), R(IF j = k THEN 1 ELSE 0), R(0), R("1e-10"))

Ascending(d, n) == \A i \in 1 .. n - 1 : d[i] \preceq d[i + 1]

EigenPairs(C, B, d, n) ==
  LET tol == R("1e-9") \otimes MaxDiag(C, n)
  IN \A j \in 1 .. n :
       LET b == Column(B, n, j)
           Cb == [i \in 1 .. n |-> VDot([k \in 1 .. n |-> Sym(C, n, i, k)], b)]
       IN VClose(Cb, VScale(RSq(d[j]), b), R(0), tol)

\* Cout = Cin + t * I, where t > 0 only if the smallest eigenvalue falls below the largest divided by MaxCondition
Lifted(Cin, Cout, d, n) ==
  LET scale == MaxDiag(Cin, n)
      dt == TLCEval([i \in 1 .. n |-> Elem(Cout, n, i, i) \ominus Elem(Cin, n, i, i)])
      small == R("1e-14") \otimes scale
      floor == RSq(d[n]) \oslash MaxCondition
      diag(m) == (m - 1) \div n = (m - 1) % n
  IN /\ \A m \in 1 .. n * n : RClose(Cout[m], Cin[m], R("1e-9"), R("1e-11") \otimes scale)
     /\ \A i \in 1 .. n : RNeg(small) \preceq dt[i] /\ dt[i] \preceq (R("1e-13") \otimes scale \otimes R(n))
     /\ (R("0.9") \otimes floor) \preceq RSq(d[1])
     /\ (\E i \in 1 .. n : small \prec dt[i]) => RSq(d[1]) \preceq (R(2) \otimes floor)
     \* a vanishing variance is lifted to the floor
     /\ \A i \in 1 .. n : REq(Elem(Cin, n, i, i), R(0)) => RClose(dt[i], floor, R("0.05"), R(0))

(***************************************************************************)
(* Termination.                                                            *)
(***************************************************************************)
\* all scaled variances are below the goal (by the given factor)
Converged(S, n, acc, factor) ==
  \A i \in 1 .. n :
     RSq(S.s) \otimes Elem(S.C, n, i, i)
        \prec (R(factor) \otimes (RSq(R(acc) \otimes S.x[i]) \oplus MinVariance))
=============================================================================
