------------------------------- MODULE Sections -------------------------------
(* Spectroscopic data sections: reading, masking, instrumental convolution,      *)
(* continuum and cost.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real64, Text, SequencesExt

Blank == {" ", "\t"}
Positions(s, P(_)) == SelectSeq([i \in 1 .. Len(s) |-> i], P)
Words(line) ==
  LET s == TLCEval(Chars(line))
      b == TLCEval(Positions(s, LAMBDA i : s[i] \notin Blank /\ (i = 1 \/ s[i - 1] \in Blank)))
      e == TLCEval(Positions(s, LAMBDA i : s[i] \notin Blank /\ (i = Len(s) \/ s[i + 1] \in Blank)))
  IN [k \in 1 .. Len(b) |-> Str(SubSeq(s, b[k], e[k]))]

(***************************************************************************)
(* Reading: lines from line number from on, wavelengths in a .. b.         *)
(***************************************************************************)
IsComment(line) == line # "" /\ Chars(line)[1] \in {"#", "%", "!"}

Row(line) ==
  LET w == Words(line)
  IN IF Len(w) < 2 \/ ~(IsNumber(w[1]) /\ IsNumber(w[2])) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, wav |-> R(w[1]), flx |-> R(w[2]),
           unc |-> IF Len(w) > 2 /\ IsNumber(w[3]) THEN R(w[3]) ELSE R(1),
           msk |-> ~(Len(w) > 3 /\ IsNumber(w[3]) /\ w[4] = "0")]

\* [ok, next: the number of the line to be read next, rows]
Read(lines, from, a, b) ==
  LET blank == {k \in from .. Len(lines) : lines[k] = ""}
      last == IF blank = {} THEN Len(lines) ELSE (CHOOSE k \in blank : \A m \in blank : k <= m) - 1
      data == SelectSeq([k \in 1 .. last - from + 1 |-> lines[from + k - 1]], LAMBDA s : ~IsComment(s))
      rows == TLCEval([k \in 1 .. Len(data) |-> Row(data[k])])
      good == \A k \in 1 .. Len(rows) : rows[k].ok
      within == IF good THEN SelectSeq(rows, LAMBDA q : a \preceq q.wav /\ q.wav \preceq b) ELSE <<>>
  IN [ok |-> good /\ within # <<>>, malformed |-> ~good, next |-> last + 2, rows |-> within]

Field(rows, f) == [k \in 1 .. Len(rows) |-> rows[k][f]]

\* a section: wav, flx, unc: vectors, msk: valid or not
Section(rows) ==
  TLCEval([n |-> Len(rows), wav |-> Field(rows, "wav"), flx |-> Field(rows, "flx"), unc |-> Field(rows, "unc"),
           msk |-> Field(rows, "msk")])

Mask(S, a, b) ==
  [S EXCEPT !.msk = TLCEval([i \in 1 .. S.n |-> S.msk[i] /\ ~(a \preceq S.wav[i] /\ S.wav[i] \preceq b)])]

Lower(S) == IF S.n = 0 THEN R(0) ELSE S.wav[1]
Upper(S) == IF S.n = 0 THEN R(0) ELSE S.wav[S.n]
Center(S) == R("0.5") \otimes (Lower(S) \oplus Upper(S))
Width(S) == Upper(S) \ominus Lower(S)
Valid(S) == {i \in 1 .. S.n : S.msk[i]}

(***************************************************************************)
(* Instrumental convolution.  The transmission at the nodes x_1, ..., x_N  *)
(* of an evenly spaced grid (spacing w) is interpolated linearly; beyond   *)
(* the ends the outermost segments are repeated.  The line spread function *)
(* is a Gaussian with half width at half maximum h, truncated after the    *)
(* last whole spacing within four half widths.                             *)
(***************************************************************************)
Pi == R("3.14159265358979323846")

\* integrals of the line spread function, and of the distance times it, over the j-th spacing
Kernel(h, w, m) ==
  LET b == h \oslash RSqrt(RLog(R(2)))
      P(j) == R("0.5") \otimes RErf((R(j) \otimes w) \oslash b)
      Q(j) == RNeg((R("0.5") \otimes (b \oslash RSqrt(Pi))) \otimes RExp(RNeg(RSq((R(j) \otimes w) \oslash b))))
      ps == TLCEval([j \in 1 .. m |-> P(j - 1)])
      qs == TLCEval([j \in 1 .. m |-> Q(j - 1)])
  IN TLCEval([dp |-> [j \in 1 .. m - 1 |-> ps[j + 1] \ominus ps[j]], dq |-> [j \in 1 .. m - 1 |-> qs[j + 1] \ominus qs[j]]])

\* the convolution at node i (1 .. N)
Convolved(t, N, K, w, i) ==
  LET M == Len(K.dp)
      \* left and right segments at distance j - 1 .. j spacings: from node to node
      rn(j) == IF i + j > N THEN N - 1 ELSE i + j - 1   \* near node of the right segment (far node: + 1)
      ln(j) == IF i <= j THEN 2 ELSE i - j + 1          \* near node of the left segment (far node: - 1)
      near == TLCEval([j \in 1 .. M |-> t[rn(j)] \oplus t[ln(j)]])
      slope == TLCEval([j \in 1 .. M |-> (t[rn(j) + 1] \ominus t[rn(j)]) \oplus (t[ln(j) - 1] \ominus t[ln(j)])])
      \* value at distance x: near + slope * (x / w - (j - 1))
  IN VDot(K.dp, VSub(near, VMul([j \in 1 .. M |-> R(j - 1)], slope))) \oplus (VDot(K.dq, slope) \oslash w)

\* nodes between the data points: s per spacing
Nodes(S, s) ==
  [k \in 1 .. s * (S.n - 1) + 1 |->
     LET i == (k - 1) \div s + 1
         j == (k - 1) % s
     IN IF j = 0 THEN S.wav[i]
        ELSE S.wav[i] \oplus ((R(j) \oslash R(s)) \otimes (S.wav[i + 1] \ominus S.wav[i]))]

\* the sampling of a section at resolution r (in thousands)
Sampling(S, r) ==
  LET h == (R("0.5") \otimes Center(S)) \oslash (r \otimes R(1000))
      d == Width(S) \oslash R(S.n - 1)
      s == RInt(RCeil(d \oslash h))
      w == d \oslash R(s)
      m == RInt(RFloor(R(4) \otimes (h \oslash w))) + 1
  IN TLCEval([h |-> h, s |-> s, w |-> w, m |-> m])

\* optical depth, transmission and absorption term at the data points; tau is an operator on nodes
Absorption(S, r, Tau(_)) ==
  IF S.n <= 2 THEN [opt |-> [i \in 1 .. S.n |-> R(0)], atm |-> [i \in 1 .. S.n |-> R(0)], cat |-> [i \in 1 .. S.n |-> R(0)]]
  ELSE LET q == Sampling(S, r)
           x == TLCEval(Nodes(S, q.s))
           o == TLCEval(Tau(x))
           t == TLCEval(VExp([k \in 1 .. Len(o) |-> RNeg(o[k])]))
           K == Kernel(q.h, q.w, q.m)
           at(i) == (i - 1) * q.s + 1
       IN TLCEval([opt |-> [i \in 1 .. S.n |-> o[at(i)]],
                   atm |-> [i \in 1 .. S.n |-> t[at(i)]],
                   cat |-> [i \in 1 .. S.n |-> Convolved(t, Len(x), K, q.w, at(i))]])

(***************************************************************************)
(* The continuum: Legendre polynomials P_0, ..., P_(m-1) over the range of *)
(* the section.                                                            *)
(***************************************************************************)
LegendreBasis(S, m) ==
  LET t == TLCEval([i \in 1 .. S.n |-> ((R(2) \otimes (S.wav[i] \ominus Lower(S))) \oslash Width(S)) \ominus R(1)])
      P[k \in 0 .. m - 1] ==
        IF k = 0 THEN [i \in 1 .. S.n |-> R(1)]
        ELSE IF k = 1 THEN t
        ELSE [i \in 1 .. S.n |-> ((R(2 * k - 1) \otimes t[i] \otimes P[k - 1][i]) \ominus (R(k - 1) \otimes P[k - 2][i])) \oslash R(k)]
  IN [k \in 1 .. m |-> TLCEval(P[k - 1])]

(* Solution of a symmetric positive definite system (Gaussian elimination).    *)
RECURSIVE Solve(_, _)
Solve(A, b) ==
  IF Len(b) = 1 THEN <<b[1] \oslash A[1][1]>>
  ELSE LET m == Len(b)
           f == TLCEval([i \in 2 .. m |-> A[i][1] \oslash A[1][1]])
           A1 == TLCEval([i \in 1 .. m - 1 |-> [j \in 1 .. m - 1 |-> A[i + 1][j + 1] \ominus (f[i + 1] \otimes A[1][j + 1])]])
           b1 == TLCEval([i \in 1 .. m - 1 |-> b[i + 1] \ominus (f[i + 1] \otimes b[1])])
           x == TLCEval(Solve(A1, b1))
       IN <<(b[1] \ominus VSum([j \in 1 .. m - 1 |-> A[1][j + 1] \otimes x[j]])) \oslash A[1][1]>> \o x

\* a tiny relative change of the coefficients, in one direction or the other
Disturb(A) == TLCEval([i \in 1 .. Len(A) |-> [j \in 1 .. Len(A) |-> A[i][j] \otimes R(IF (i * j) % 3 = 1 THEN "1.0000000000001" ELSE "0.9999999999999")]])

Pick(v, is) == [k \in 1 .. Len(is) |-> v[is[k]]]

\* the combination of m Legendre polynomials that minimizes the squared residuals of the valid data;
\* it is determined numerically, if tiny changes of the coefficients do not matter
Best(S, m, cat) ==
  IF m = 0 THEN [cfl |-> [i \in 1 .. S.n |-> R(1)], good |-> TRUE]
  ELSE LET L == TLCEval(LegendreBasis(S, m))
           is == TLCEval(SetToSortSeq(Valid(S), LAMBDA a, b : a < b))
           u == TLCEval(Pick(S.unc, is))
           c == TLCEval(VDiv(Pick(cat, is), u))           \* weighted absorption
           y == TLCEval(VDiv(Pick(S.flx, is), u))
           B == TLCEval([k \in 1 .. m |-> VMul(c, Pick(L[k], is))])
           A == TLCEval([j \in 1 .. m |-> [k \in 1 .. m |-> VDot(B[j], B[k])]])
           b == TLCEval([j \in 1 .. m |-> VDot(B[j], y)])
           z == TLCEval(Solve(A, b))
           d == TLCEval(Solve(Disturb(A), b))
           Cfl(w) == TLCEval([i \in 1 .. S.n |-> VSum([k \in 1 .. m |-> w[k] \otimes L[k][i]])])
       IN TLCEval([cfl |-> Cfl(z), good |-> VClose(Cfl(z), Cfl(d), R("1e-8"), R("1e-13"))])
Continuum(S, m, cat) == Best(S, m, cat).cfl

\* all columns
Fit(S, m, r, Tau(_)) ==
  LET A == Absorption(S, r, Tau)
      best == TLCEval(Best(S, m, A.cat))
      cfl == best.cfl
      fit == TLCEval(VMul(cfl, A.cat))
  IN TLCEval([good |-> best.good, opt |-> A.opt, atm |-> A.atm, cat |-> A.cat, cfl |-> cfl, tfl |-> VMul(cfl, A.atm), fit |-> fit,
              res |-> VDiv(VSub(S.flx, fit), S.unc), nfl |-> VDiv(S.flx, cfl), nun |-> VDiv(S.unc, cfl)])

Cost(S, F) ==
  LET is == SetToSortSeq(Valid(S), LAMBDA a, b : a < b)
      q == TLCEval(Pick(F.res, is))
  IN R("0.5") \otimes VDot(q, q)
================================================================================
