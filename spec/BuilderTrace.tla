---------------------------- MODULE BuilderTrace ----------------------------
(* Validates recorded sequences of configuration calls against BuilderModel    *)
(* and the strategy parameters against their definition (CMAES!Strategy).      *)
EXTENDS BuilderModel, CMAES, Word64, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l
Clause(name, p, info) == p \/ (PrintT(<<"REJECTED", l, name, info>>) /\ FALSE)

Strategies == TLCEval([n \in {1, 2, 3, 7, 10} |-> [mu \in {1, 2, 5, 20} |-> Strategy(n, mu)]])

close(a, b) == RClose(a, b, R("1e-12"), R("1e-14"))

Agrees(S, r, k) ==
  LET P == Strategies[S.n][S.mu]
  IN /\ Clause("settings", r.n = S.n /\ r.mu = S.mu /\ r.lambda = S.lambda /\ r.mod = S.mod /\ r.stop = S.stop, k)
     /\ Clause("accuracy goal", REq(r.acc, R(S.acc)), k)
     /\ Clause("seed", WEq(W(r.seed), W(S.seed)), k)
     /\ Clause("weights", VClose(r.w, P.w, R("1e-12"), R(0)), k)
     /\ Clause("rates", close(r.cs, P.cs) /\ close(r.cc, P.cc) /\ close(r.r1, P.ccov) /\ close(r.rm, P.acov)
                          /\ close(r.damp, P.damp), k)

After(cs, i) == LET S[k \in 0 .. i] == IF k = 0 THEN Fresh ELSE TLCEval(Apply(S[k - 1], cs[k][1], cs[k][2])) IN S[i]

Ok(r) ==
  \A k \in 0 .. Len(r.calls) :
    LET S == TLCEval(After(r.calls, k))
    IN /\ Agrees(S, r.steps[k + 1], <<k, r.calls>>)
       /\ k > 0 => Clause("refusal", r.threw[k] = Refused(After(r.calls, k - 1), r.calls[k][1], r.calls[k][2]), <<k, r.calls>>)

TInit == l = 1 /\ settings = Fresh /\ calls = <<>>
TNext ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1 /\ UNCHANGED vars
  \/ l = Len(Trace) + 1 /\ UNCHANGED <<l, settings, calls>>
=============================================================================
