----------------------------- MODULE Uncertainty -----------------------------
(* Parameter uncertainties from the curvature along the principal axes.         *)
(*                                                                              *)
(* For every principal axis j (starting with the global step size) the cost is  *)
(* probed at x + c d_j b_j and x - c d_j b_j.  The step c is enlarged as long   *)
(* as the mean rise of the cost is below one half and reduced otherwise, until  *)
(* both have occurred; g_j = c / sqrt |rise| of the last pair.  The uncertainty *)
(* of parameter i is the geometric mean of all g_j times sqrt(C_ii).            *)
(*                                                                              *)
(* Checked against records "full" with the calls made after the search (field   *)
(* "after"), from which the objective values at the probes are taken.           *)
EXTENDS CMAES, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Clause(name, p, info) == p \/ (PrintT(<<"REJECTED", l, name, info>>) /\ FALSE)

\* index of a call with the given arguments (0: none)
At(calls, x, atol) ==
  LET m == {i \in 1 .. Len(calls) : VClose(calls[i].x, x, R("1e-14"), atol)}
  IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE

None == <<>>

RECURSIVE Probe(_, _, _, _, _, _, _)
Probe(calls, x, step, c, small, large, n) ==
  LET p == TLCEval(VAdd(x, VScale(c, step)))
      q == TLCEval(VSub(x, VScale(c, step)))
      i == At(calls, p, R("1e-10") \otimes c \otimes VMaxAbs(step))
      k == At(calls, q, R("1e-10") \otimes c \otimes VMaxAbs(step))
      z == At(calls, x, R(0))
  IN IF i = 0 \/ k = 0 \/ z = 0 THEN [g |-> None, n |-> n, bad |-> TRUE, c |-> c]
     ELSE LET rise == TLCEval((R(calls[i].y) \oplus R(calls[k].y)) \ominus (R(2) \otimes R(calls[z].y)))
              half == RAbs(R("0.5") \otimes (R(calls[i].y) \oplus R(calls[k].y)) \ominus R(calls[z].y))
              g == c \oslash RSqrt(RAbs(rise))
              low == half \prec R("0.5")
          IN IF (small \/ low) /\ (large \/ ~low)
             THEN [g |-> TLCEval(g), n |-> n + 1, bad |-> FALSE, c |-> c]
             ELSE Probe(calls, x, step, TLCEval(IF low THEN c \otimes R("1.618") ELSE c \otimes R("0.618")),
                        small \/ low, large \/ ~low, n + 1)

Ok(r) ==
  LET n == r.case.n
      S == TLCEval([x |-> V(r.st.x), s |-> R(r.st.s), d |-> V(r.st.d), B |-> V(r.st.B), C |-> V(r.st.C), z |-> V(r.st.z)])
      calls == TLCEval([i \in 1 .. Len(r.after) |-> [x |-> V(r.after[i].x), y |-> R(r.after[i].y)]])
      step(j) == TLCEval(VScale(S.d[j], Column(S.B, n, j)))
      P == TLCEval([j \in 1 .. n |-> Probe(calls, S.x, step(j), S.s, FALSE, FALSE, 0)])
      h == RExp(VSum([j \in 1 .. n |-> RLog(P[j].g)]) \oslash R(n))
  IN IF ~r.st.opt
     THEN Clause("no uncertainty without convergence", \A i \in 1 .. n : REq(S.z[i], R(0)), r.st.z)
     ELSE /\ Clause("both directions are probed along every principal axis until bracketed", \A j \in 1 .. n : ~P[j].bad, P)
          /\ Clause("uncertainties", \A i \in 1 .. n : RClose(S.z[i], h \otimes RSqrt(Elem(S.C, n, i, i)), R("1e-9"), R(0)),
                    <<VStr(S.z), RStr(h)>>)
          \* a quadratic cost with learned covariance: the standard errors are the roots of the inverse of the Hessian
          /\ "errors" \in DOMAIN r.case =>
               Clause("standard errors", \A i \in 1 .. n : RClose(S.z[i], R(r.case.errors[i]), R("0.35"), R(0)),
                      <<VStr(S.z), r.case.errors>>)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
