------------------------------ MODULE EigenTrace ------------------------------
(* Recorded eigendecompositions.  A symmetric matrix is given by the lower       *)
(* triangle of its rows; the rows of the result are the eigenvectors.            *)
EXTENDS Integers, Sequences, TLC, Real64, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE

Row(x, n, i) == SubSeq(x, (i - 1) * n + 1, i * n)
RowOf(a, n, i) == TLCEval([j \in 1 .. n |-> IF j <= i THEN R(a[(i - 1) * n + j]) ELSE R(a[(j - 1) * n + i])])

Ok(r) ==
  LET n == r.n
      A == TLCEval([i \in 1 .. n |-> RowOf(r.a, n, i)])
      z == TLCEval(V(r.z))
      zf == TLCEval(V(r.zf))
      w == TLCEval(V(r.w))
      Z == TLCEval([i \in 1 .. n |-> Row(z, n, i)])
      norm == TLCEval(VMaxAbs([i \in 1 .. n |-> VMaxAbs(A[i])]))
      eps == R("1e-13") \otimes R(n)
      tol == eps \otimes (R(n) \otimes norm)
      gap(k) == LET d(j) == RAbs(w[k] \ominus w[j]) IN \A j \in 1 .. n : j # k => (norm \otimes R("1e-3")) \prec d(j)
  IN /\ Clause("no error", r.error = "", r.error)
     /\ Clause("matrix is not changed", r.after = r.a, "")
     /\ Clause("ascending eigenvalues", \A k \in 1 .. n - 1 : w[k] \preceq w[k + 1], r.w)
     /\ \A k \in 1 .. n : \A j \in 1 .. k :
          Clause("orthonormal eigenvectors", RClose(VDot(Z[k], Z[j]), IF j = k THEN R(1) ELSE R(0), R(0), eps), <<k, j, RStr(VDot(Z[k], Z[j]))>>)
     /\ \A k \in 1 .. n : \A i \in 1 .. n :
          Clause("eigenvector", RClose(VDot(A[i], Z[k]), w[k] \otimes Z[k][i], R(0), tol), <<i, k, RStr(VDot(A[i], Z[k])), RStr(w[k] \otimes Z[k][i])>>)
     /\ \A k \in 1 .. n :
          /\ Clause("independent of history: eigenvalue", RClose(w[k], R(r.wf[k]), R(0), tol), <<k, r.w[k], r.wf[k]>>)
          /\ gap(k) => Clause("independent of history: eigenvector", VClose(Z[k], Row(zf, n, k), R(0), R("1e-8")), k)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
