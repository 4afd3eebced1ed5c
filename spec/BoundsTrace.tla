----------------------------- MODULE BoundsTrace -----------------------------
(* Complete constrained runs: every individual lies within the (closed) bounds, *)
(* and so does the result (up to rounding: it is a weighted mean).              *)
(* Records "full": complete runs with all objective calls.  Records "edge":     *)
(* the constraint of a model at and next to its bounds.                         *)
EXTENDS Integers, Sequences, TLC, Real64, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, p, info) == p \/ (PrintT(<<"REJECTED", l, name, info>>) /\ FALSE)

Inside(x, lo, up) == Len(x) = Len(lo) /\ \A i \in 1 .. Len(x) : lo[i] \preceq x[i] /\ x[i] \preceq up[i]
\* up to rounding
Nearly(x, lo, up) ==
  \A i \in 1 .. Len(x) : LET t == R("4e-15") \otimes RMax(RAbs(lo[i]), RAbs(up[i]))
                         IN (lo[i] \ominus t) \preceq x[i] /\ x[i] \preceq (up[i] \oplus t)

FullOk(r) ==
  LET lo == TLCEval(V(r.case.lo))
      up == TLCEval(V(r.case.up))
      lambda == r.case.lambda
      n == r.st.g * lambda
      ok(k) == LET x == V(r.calls[k].x) IN IF k <= n THEN Inside(x, lo, up) ELSE r.st.opt \/ Nearly(x, lo, up)
      bad == {k \in 1 .. Len(r.calls) : ~ok(k)}
  IN /\ Clause("no error", r.error = "", r.error)
     /\ Clause("every individual is evaluated", Len(r.calls) >= n, <<Len(r.calls), n>>)
     /\ Clause("individuals lie within the bounds", bad = {}, IF bad = {} THEN 0 ELSE LET k == CHOOSE k \in bad : TRUE IN <<k, n, r.calls[k]>>)
     /\ Clause("the result lies within the bounds", Nearly(V(r.st.x), lo, up), r.st.x)

\* probes: vectors that differ from a vector inside the bounds in one coordinate
EdgeOk(r) ==
  LET lo == TLCEval(V(r.lo))
      up == TLCEval(V(r.up))
  IN \A k \in 1 .. Len(r.probes) :
       Clause("bounds are inclusive", r.probes[k].violated = ~Inside(V(r.probes[k].x), lo, up), r.probes[k])

Ok(r) == CASE r.e = "full" -> FullOk(r) [] r.e = "edge" -> EdgeOk(r)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
