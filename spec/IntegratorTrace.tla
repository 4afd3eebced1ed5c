---------------------------- MODULE IntegratorTrace ----------------------------
(* Recorded integrals: the results for a maximum of 0, 1, 2, ... refinements are  *)
(* a behaviour of the adaptive algorithm.  Any choice among parts with (nearly)   *)
(* equal errors is admitted, so the specification tracks the set of partitions     *)
(* that agree with the results so far.                                            *)
EXTENDS Integrator, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE

Term(t, x) ==
  LET p == TLCEval(V(t.p))
  IN CASE t.k = "pow" -> LET m == RInt(p[2])
                             P[i \in 0 .. 60] == IF i = 0 THEN p[1] ELSE P[i - 1] \otimes x
                         IN P[m]
       [] t.k = "gauss" -> p[1] \otimes RExp(RNeg(RSq((x \ominus p[2]) \oslash p[3])))
       [] t.k = "lorentz" -> p[1] \oslash (R(1) \oplus RSq((x \ominus p[2]) \oslash p[3]))
       [] t.k = "abs" -> p[1] \otimes RAbs(x \ominus p[2])
       [] t.k = "root" -> p[1] \otimes RSqrt(RAbs(x \ominus p[2]))
       [] t.k = "step" -> IF x \prec p[2] THEN p[1] ELSE R(0)
       [] t.k = "decay" -> p[1] \otimes RExp(RNeg(RAbs(x) \oslash p[2]))
RECURSIVE Terms(_, _)
Terms(f, x) == IF f = <<>> THEN R(0) ELSE Term(f[1], x) \oplus Terms(Tail(f), x)
Integrand(f, x) == [i \in 1 .. Len(x) |-> Terms(f, x[i])]

Scale(P) == LET s == VSum([i \in 1 .. Len(P) |-> RAbs(P[i].res)]) IN s
Noise(P, mag) == R("4e-15") \otimes (Scale(P) \oplus mag)

\* the partitions that may follow P: near-ties and near-stops admit several
Follow(p, q, F(_), goal, P, noise) ==
  LET e == Error(P)
      m == MaxError(P)
      ties == {i \in 1 .. Len(P) : (m \otimes R("0.99999999")) \preceq (P[i].err \oplus noise)}
      refined == {Bisect(p, q, F, P, i) : i \in ties}
  IN IF (e \oplus noise) \prec goal THEN {P}
     ELSE IF goal \prec (e \ominus noise) THEN refined
     ELSE {P} \cup refined

\* <<k, set>>: the results up to refinement k agree with some partition; when all errors are noise the choice is arbitrary and the rest is not judged
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(p, q, F(_), goal, mag, y, k, Ps) ==
  LET ok == {P \in Ps : RClose(Result(P), y[k], R("1e-12"), Noise(P, mag) \otimes R(10))}
  IN IF ok = {} THEN k
     ELSE IF k = Len(y) THEN 0
     ELSE IF Cardinality(ok) > 40 \/ \E P \in ok : MaxError(P) \preceq Noise(P, mag) THEN 0
     ELSE Walk(p, q, F, goal, mag, y, k + 1, TLCEval(UNION {Follow(p, q, F, goal, P, Noise(P, mag)) : P \in ok}))

\* magnitude of the integrand, for cancellation
Magnitude(F(_), a, b) ==
  LET x == TLCEval([i \in 1 .. 33 |-> a \oplus ((b \ominus a) \otimes (R(i - 1) \oslash R(32)))])
  IN VMaxAbs(F(x)) \otimes RAbs(b \ominus a)

Behaviour(name, r, F(_), a, b, y) ==
  LET mag == TLCEval(Magnitude(F, a, b))
      bad == TLCEval(Walk(r.p, r.q, F, R(r.goal), mag, y, 1, {<<Part(r.p, r.q, F, a, b)>>}))
  IN Clause(name, bad = 0, <<bad, IF bad > 0 THEN RStr(y[bad]) ELSE "", RStr(Integral(r.p, r.q, F, a, b, R(r.goal), IF bad > 0 THEN bad - 1 ELSE 0))>>)

\* the exact integral of a polynomial
Antiderivative(t, x) ==
  LET p == V(t.p)
      m == RInt(p[2])
  IN (p[1] \oslash R(m + 1)) \otimes Term([k |-> "pow", p |-> <<"1", ToString(m + 1)>>], x)
RECURSIVE Polynomial(_, _, _)
Polynomial(f, a, b) == IF f = <<>> THEN R(0) ELSE (Antiderivative(f[1], b) \ominus Antiderivative(f[1], a)) \oplus Polynomial(Tail(f), a, b)

\* the convolution of the transmission exp(-f) with the function g, at the abscissas r.x
Convolution(r, x) ==
  LET H(y) == LET t == Integrand(r.f, [i \in 1 .. Len(y) |-> x \ominus y[i]])
                  g == Integrand(r.g, y)
              IN [i \in 1 .. Len(y) |-> RExp(RNeg(t[i])) \otimes g[i]]
      N(y) == H([i \in 1 .. Len(y) |-> RNeg(y[i])])
      HT(u) == Transformed(H, u)
      NT(u) == Transformed(N, u)
  IN Integral(r.p, r.q, HT, R(0), R(1), R("1e-6"), 100) \oplus Integral(r.p, r.q, NT, R(0), R(1), R("1e-6"), 100)

Convolved(r) ==
  \A k \in 1 .. Len(r.x) :
    LET w == Convolution(r, R(r.x[k]))
    IN Clause("convolution", RClose(R(r.y[k]), w, R("1e-9"), R("2e-6")), <<r.x[k], r.y[k], RStr(w)>>)

Ok(r) == IF r.domain = "convolution" THEN Convolved(r) ELSE
  LET y == TLCEval(V(r.y))
      a == R(r.a)
      b == R(r.b)
      F(x) == Integrand(r.f, x)
      G(x) == Integrand(r.f, [i \in 1 .. Len(x) |-> RNeg(x[i])])
      FT(u) == Transformed(F, u)
      GT(u) == Transformed(G, u)
      tiny == R("1e-12") \otimes (RAbs(a) \oplus RAbs(b))
      goal == R("1e-6")
  IN /\ Clause("default goal and number of refinements", r["default"] = r.explicit, <<r["default"], r.explicit>>)
     /\ CASE r.domain = "finite" ->
            /\ r.exact => \A k \in 1 .. Len(y) :
                            Clause("exact for polynomials", RClose(y[k], Polynomial(r.f, a, b), R("1e-11"), Magnitude(F, a, b) \otimes R("1e-12")), <<k, r.y[k], RStr(Polynomial(r.f, a, b))>>)
            /\ Clause("abscissas within the domain", (RMin(a, b) \ominus tiny) \preceq R(r.lo) /\ R(r.up) \preceq (RMax(a, b) \oplus tiny), <<r.lo, r.up>>)
            /\ Behaviour("adaptive refinement", r, F, a, b, y)
       [] r.domain = "positive" ->
            /\ Clause("abscissas within the domain", R(0) \preceq R(r.lo), r.lo)
            /\ Behaviour("positive-infinite domain", r, FT, R(0), R(1), y)
       [] r.domain = "negative" ->
            /\ Clause("abscissas within the domain", R(r.up) \preceq R(0), r.up)
            /\ Behaviour("negative-infinite domain", r, GT, R(0), R(1), y)
       [] r.domain = "infinite" ->
            \* either half has its own refinements: compare with the two single-branch algorithms
            \A k \in 1 .. Len(y) :
              LET w == Integral(r.p, r.q, FT, R(0), R(1), R(r.goal), k - 1) \oplus Integral(r.p, r.q, GT, R(0), R(1), R(r.goal), k - 1)
              IN Clause("infinite domain", RClose(y[k], w, R("1e-9"), R("1e-12")), <<k, r.y[k], RStr(w)>>)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
