------------------------------ MODULE PolarTrace ------------------------------
EXTENDS Polar, Json, IOUtils, Random

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE
Near(y, z) == RClose(R(y), z, R("1e-11"), R("1e-12"))

PolarOk(r) ==
  LET n == TLCEval(Normal(V(r.u)))
  IN /\ Clause("number of deviates", Len(r.y) = Len(n), <<Len(r.y), Len(n)>>)
     /\ \A i \in 1 .. Len(n) : Clause("deviate", Near(r.y[i], n[i]), <<i, r.y[i], RStr(n[i])>>)

\* the stream of a seed: that of the generator with this seed
RECURSIVE Uniforms(_, _, _)
Uniforms(g, n, us) == IF n = 0 THEN us ELSE LET r == TLCEval(Rand(g)) IN Uniforms(r[2], n - 1, Append(us, TLCEval(Uniform(g.gen, r[1]))))

NormalOk(r) ==
  LET m == Len(r.y)
      n == TLCEval(Normal(Uniforms(FromSeed(r.gen, r.seed), 2 * m + 20, <<>>)))
      k == IF Len(n) < m THEN Len(n) ELSE m
  IN /\ Clause("enough", Len(n) >= m \div 2, Len(n))
     /\ \A i \in 1 .. k : Clause("deviate of a seed", Near(r.y[i], n[i]), <<i, r.y[i], RStr(n[i])>>)
     /\ \A i \in 1 .. m : Clause("deviate of a generator", r.y[i] = r.y2[i], <<i, r.y[i], r.y2[i]>>)

Ok(r) == CASE r.e = "polar" -> PolarOk(r) [] r.e = "normal" -> NormalOk(r)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
