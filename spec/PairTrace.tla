------------------------------ MODULE PairTrace ------------------------------
(* Relations between complete runs of the optimizer.                            *)
(*                                                                              *)
(* A "full" record with a case that has the field rel is related to the latest  *)
(* record without such a field:                                                 *)
(*   "same":  the run is the same in every respect                              *)
(*   "mono":  the objective is a strictly increasing function of the other's    *)
(*   "anti":  the objective is the negative and the direction is reversed       *)
(*   "flip":  a strictly decreasing function and the direction is reversed      *)
(* Calls are listed by generation (lambda calls each), ordered by arguments.    *)
EXTENDS Integers, Sequences, TLC, Real64, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ref
vars == <<l, ref>>

Clause(name, p, info) == p \/ (PrintT(<<"REJECTED", l, name, info>>) /\ FALSE)

SameState(a, b, fitness, uncertainties) ==
  /\ Clause("generation number", a.g = b.g, <<a.g, b.g>>)
  /\ \A f \in {"x", "d", "B", "C", "ps", "pc"} : Clause(f, a[f] = b[f], <<a[f], b[f]>>)
  /\ Clause("s", a.s = b.s, <<a.s, b.s>>)
  /\ Clause("status", a.opt = b.opt /\ a.und = b.und, <<a.opt, b.opt, a.und, b.und>>)
  /\ fitness => Clause("fitness", a.y = b.y, <<a.y, b.y>>)
  /\ uncertainties => Clause("uncertainties", a.z = b.z, <<a.z, b.z>>)

Xs(r, w, lambda) == [k \in 1 .. lambda |-> r.calls[(w - 1) * lambda + k].x]
Ys(r, w, lambda) == [k \in 1 .. lambda |-> R(r.calls[(w - 1) * lambda + k].y)]

\* the order of the values in generation w of run a is that of (or reverse to that of) run b
Isomorphic(a, b, w, lambda, reverse) ==
  w * lambda <= Len(a.calls) /\ w * lambda <= Len(b.calls) /\
  LET p == TLCEval(Ys(a, w, lambda))
      q == TLCEval(Ys(b, w, lambda))
  IN \A i, j \in 1 .. lambda : (p[i] \prec p[j]) <=> IF reverse THEN q[j] \prec q[i] ELSE q[i] \prec q[j]

Whole(r) == r.st.g

Ok(r) ==
  LET lambda == r.case.lambda
      rel == r.case.rel
      a == ref
      G == a.st.g
      rev == rel \in {"anti", "flip"}
      iso == TLCEval([w \in 1 .. G |-> Isomorphic(a, r, w, lambda, rev)])
      ga == Len(a.calls) \div lambda
      gr == Len(r.calls) \div lambda
  IN /\ Clause("no error", r.error = "" /\ a.error = "", <<r.error, a.error>>)
     /\ IF rel = "same"
        THEN /\ SameState(a.st, r.st, TRUE, TRUE)
             /\ Clause("trace", a.trace = r.trace, <<a.trace, r.trace>>)
             /\ Clause("calls", a.total = r.total /\ ("calls" \in DOMAIN a /\ "calls" \in DOMAIN r => a.calls = r.calls), <<a.total, r.total>>)
        ELSE \* as long as rounding has not created or removed ties, the same individuals are evaluated
             LET m == CHOOSE m \in 0 .. G : (\A w \in 1 .. m : iso[w]) /\ (m < G => ~iso[m + 1])
             IN /\ Clause("rounding leaves enough of the run to compare", m >= r.case.atleast \/ m = G, <<m, G>>)
                /\ \A w \in 1 .. (IF m < G THEN m + 1 ELSE m) :
                     Clause("individuals", w * lambda <= Len(r.calls) /\ Xs(a, w, lambda) = Xs(r, w, lambda), w)
                /\ m = G => SameState(a.st, r.st, FALSE, rel = "anti")
                /\ m = G /\ rel = "anti" => Clause("fitness", REq(a.st.y, RNeg(r.st.y)), <<a.st.y, r.st.y>>)

Step(r) ==
  IF "rel" \in DOMAIN r.case
  THEN (\E ok \in {Ok(r)} : ok) /\ UNCHANGED ref
  ELSE ref' = r

Init == l = 1 /\ ref = [e |-> "none"]
Next ==
  \/ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
===============================================================================
