---------------------------- MODULE ProfileTrace ----------------------------
(* Recorded optical depths of lines ("profile"), superpositions ("sum") and     *)
(* Voigt approximations ("voigt").                                              *)
EXTENDS Profiles, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE

\* relative tolerance of the optical depth at distance x from the center c, for a line of width b:
\* the distance is known to a few units in the last place of c
Tolerance(x, c, b) ==
  LET t == RAbs(x) \oslash b
  IN R("1e-10") \oplus ((R("4e-15") \otimes (c \oslash b)) \otimes (R(1) \oplus t))
Edge(L, x) == L.shape.kind = "gauss" /\ RClose(RAbs(x), R(4) \otimes L.b, R("1e-9"), R(0))
Near(L, x, y, want) == Edge(L, x) \/ RClose(y, want, Tolerance(x, L.c, L.b), R("1e-300"))

ProfileOk(r) ==
  LET q == TLCEval(V(r.case.q))
      L == Line(r.case.fn, q)
      x == TLCEval([i \in 1 .. Len(r.x) |-> R(r.x[i]) \ominus L.c])
      t == TLCEval(DepthOff(L, x))
  IN /\ Clause("number of parameters", r.count = Count(r.case.fn), r.count)
     /\ Clause("center", RClose(R(r.center), L.c, R("1e-13"), R(0)), <<r.center, RStr(L.c)>>)
     /\ Clause("redshift factor", RClose(R(r.z), L.z, R("1e-13"), R(0)), <<r.z, RStr(L.z)>>)
     /\ \A i \in 1 .. Len(x) : Clause("optical depth", Near(L, x[i], R(r.y[i]), t[i]), <<RStr(x[i] \oslash L.b), r.y[i], RStr(t[i])>>)
     /\ "ew" \in DOMAIN r =>
          Clause("equivalent width", WidthOk(R(r.ew), L, R(r.case.ew), R(0)), <<r.ew, RStr(EquivalentWidth(L, R(r.case.ew)))>>)

Part(q, k, m) == [i \in 1 .. m |-> R(q[(k - 1) * m + i])]
SumOk(r) ==
  LET m == Count(r.case.fn)
      n == r.case.lines
      Ls == TLCEval([k \in 1 .. n |-> Line(r.case.fn, Part(r.case.q, k, m))])
      x == TLCEval(V(r.case.x))
  IN /\ \A k \in 1 .. n : \A i \in 1 .. Len(x) :
          LET d == x[i] \ominus Ls[k].c
          IN Clause("optical depth of a line", Near(Ls[k], d, R(r.each[k][i]), Ls[k].a \otimes Shape(Ls[k].shape, d)), <<k, i>>)
     /\ \A i \in 1 .. Len(x) :
          Clause("sum over all lines", RClose(R(r.y[i]), VSum([k \in 1 .. n |-> R(r.each[k][i])]), R("1e-13"), R("1e-300")), <<i, r.y[i]>>)

VoigtOk(r) ==
  LET b == R(r.case.b)
      A == IF r.case.fn = "pseudo" THEN PseudoVoigt(b, R(r.case.d)) ELSE ExtendedPseudoVoigt(b, R(r.case.d))
  IN \A i \in 1 .. Len(r.y) :
       LET x == R(r.case.x[i])
       IN Clause("approximation", RClose(R(r.y[i]), Shape(A, x), R("1e-11"), R("1e-300")), <<r.case.x[i], r.y[i], RStr(Shape(A, x))>>)

Ok(r) == CASE r.e = "profile" -> ProfileOk(r) [] r.e = "sum" -> SumOk(r) [] r.e = "voigt" -> VoigtOk(r)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
