------------------------------ MODULE CMAESTrace ------------------------------
(* Validates recorded optimizer states, generation by generation, against CMAES *)
(* (one step of the specification per generation).                              *)
(*                                                                              *)
(* Records: "run": the configuration, the starting point, the stream of normal  *)
(* deviates; "gen": the state after a generation with all the individuals that  *)
(* were evaluated in that generation, the values the objective function took,   *)
(* and the calls after the last generation.                                     *)
EXTENDS CMAES, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* the next record
          st,     \* the state of the search
          pos,    \* the number of deviates consumed
          case,   \* configuration
          strat,  \* strategy parameters
          live    \* the run has not ended

vars == <<l, st, pos, case, strat, live>>

Clause(name, p) == p \/ (PrintT(<<"REJECTED", l, name>>) /\ FALSE)
ClauseX(name, p, info) == p \/ (PrintT(<<"REJECTED", l, name, info>>) /\ FALSE)

NoState == [g |-> -1]

Init == l = 1 /\ st = NoState /\ pos = 0 /\ case = [n |-> 0] /\ strat = <<>> /\ live = FALSE

Dir(c) == IF "dir" \in DOMAIN c THEN c.dir ELSE "min"
Bounds(c) == IF "lo" \in DOMAIN c THEN TLCEval(<<V(c.lo), V(c.up)>>) ELSE <<>>
Mod(c) == IF "mod" \in DOMAIN c THEN c.mod ELSE 1

State(r) == TLCEval([x |-> V(r.x), s |-> R(r.s), d |-> V(r.d), B |-> V(r.B), C |-> V(r.C), pc |-> V(r.pc), ps |-> V(r.ps),
             g |-> r.g])

Start(r) ==
  /\ case' = [r.case EXCEPT !.seed = "0"] @@ [dev |-> TLCEval(V(r.dev))]
  /\ strat' = Strategy(r.case.n, r.case.mu)
  /\ st' = NoState
  /\ pos' = 0
  /\ live' = TRUE

(* Objective values at individuals and at the mean are compared by means of the *)
(* recorded calls, no specification of the objective function is needed.        *)
SameState(name, a, b) ==
  /\ Clause(name \o " x", VClose(a.x, b.x, R(0), R(0)))
  /\ Clause(name \o " s", RClose(a.s, b.s, R("1e-15"), R(0)))
  /\ Clause(name \o " d", VClose(a.d, b.d, R("1e-15"), R(0)))
  /\ Clause(name \o " B", VClose(a.B, b.B, R(0), R(0)))
  /\ Clause(name \o " C", VClose(a.C, b.C, R("1e-15"), R(0)))
  /\ Clause(name \o " pc", VClose(a.pc, b.pc, R(0), R(0)))
  /\ Clause(name \o " ps", VClose(a.ps, b.ps, R(0), R(0)))

\* the call with the arguments of an individual (0: there is none)
Find(calls, x, atol) ==
  LET m == {i \in 1 .. Len(calls) : VClose(calls[i].x, x, R("1e-12"), atol)}
  IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A k \in m : i <= k

(* The first record of a run is its initial state: that of generation zero, or  *)
(* (when the case starts later) the recorded one.                               *)
FirstOk(r) ==
  LET c == case
  IN    IF c.first = 0
        THEN LET s0 == Initial(c.n, c.x, c.d, c.s)
             IN /\ SameState("initial", s0, State(r.st))
                /\ Clause("generation", r.st.g = 0)
                /\ Clause("flags", ~r.st.opt /\ ~r.st.und)
                /\ Clause("calls", \A m \in 1 .. Len(r.calls) : VClose(r.calls[m].x, c.x, R(0), R(0)))
        ELSE Clause("generation", r.st.g = c.first)

First(r) ==
  LET c == case
  IN /\ \E ok \in {FirstOk(r)} : ok
     /\ st' = State(r.st)
     /\ pos' = IF c.first = 0 THEN 0 ELSE c.first * c.lambda * c.n  \* without bounds only
     /\ live' = (r.st.g = r.stop)
     /\ UNCHANGED <<case, strat>>

(* One generation.  The checks are evaluated as one value: TLC does not cache   *)
(* definitions in actions.                                                      *)
GenerationVerdict(r) ==
  LET c == case
      n == c.n
      lambda == c.lambda
      mu == c.mu
      dir == Dir(c)
      S == st
      Q == State(r.st)
      drawn == TLCEval(Population(S, n, lambda, Bounds(c), Axes(S, n), c.dev, pos, <<>>))
      atol == R("1e-9") \otimes S.s \otimes VMaxAbs(S.d)
      index == TLCEval([k \in 1 .. lambda |-> Find(r.calls, drawn.pop[k].x, atol)])
      y == TLCEval([k \in 1 .. lambda |-> IF index[k] = 0 THEN R(0) ELSE R(r.calls[index[k]].y)])
      order == TLCEval(Ranking(y, dir))
      sorted == TLCEval([k \in 1 .. lambda |-> y[order[k]]])
      unequal(a, b) == ~REq(a, b)
      clear == \A k \in 1 .. mu : unequal(sorted[k], sorted[k + 1])  \* no ties that affect the selection
      N == TLCEval(Adapt(S, n, strat, [k \in 1 .. mu |-> drawn.pop[order[k]]]))
      dscale == VMaxAbs(S.d)
      cscale == RMax(MaxDiag(S.C, n), MaxDiag(N.C, n))
      updating == (S.g + 1) % Mod(c) = 0
      same(f, a, b, tol) == ClauseX(f, VClose(a, b, R("1e-9"), tol), <<VStr(a), VStr(b)>>)
      ok ==
     /\ Clause("a finished run stays finished", live)
     /\ Clause("every individual of the generation is evaluated", Len(r.calls) >= lambda)
     /\ ClauseX("individuals are drawn from the mean, the steps and the axes", \A k \in 1 .. lambda : index[k] # 0, index)
     /\ Clause("nothing but the individuals and the mean is evaluated",
               \A m \in 1 .. Len(r.calls) :
                  \/ \E k \in 1 .. lambda : index[k] = m \/ VClose(r.calls[index[k]].x, r.calls[m].x, R(0), R(0))
                  \/ VClose(r.calls[m].x, Q.x, R(0), R(0)) \/ VClose(r.calls[m].x, S.x, R(0), R(0)))
     /\ Clause("generation number", Q.g = S.g + 1)
     /\ IF r.st.und
        THEN /\ Clause("underflow", ~unequal(sorted[1], sorted[mu + 1]))
             /\ Clause("not optimized", ~r.st.opt)
             /\ SameState("underflow keeps", [S EXCEPT !.g = S.g + 1], Q)
        ELSE /\ Clause("no underflow", \E k \in mu + 1 .. lambda : unequal(sorted[1], sorted[k]))
             /\ clear =>
                /\ same("mean", N.x, Q.x, R("1e-9") \otimes S.s \otimes dscale)
                /\ same("distribution cumulation path", N.pc, Q.pc, R("1e-11") \otimes dscale)
                /\ same("step size cumulation path", N.ps, Q.ps, R("1e-11"))
                /\ ClauseX("global step size", RClose(N.s, Q.s, R("1e-9"), R(0)), <<RStr(N.s), RStr(Q.s)>>)
                /\ IF updating
                   THEN /\ ClauseX("covariance", Lifted(N.C, Q.C, Q.d, n), <<VStr(N.C), VStr(Q.C), VStr(Q.d)>>)
                        /\ Clause("axes are orthonormal", Orthonormal(Q.B, n))
                        /\ Clause("steps are ascending", Ascending(Q.d, n))
                        /\ Clause("axes and steps represent the covariance", EigenPairs(Q.C, Q.B, Q.d, n))
                   ELSE /\ same("covariance", N.C, Q.C, R("1e-13") \otimes cscale)
                        /\ Clause("axes are kept", VClose(S.B, Q.B, R(0), R(0)))
                        /\ Clause("steps are kept", VClose(S.d, Q.d, R(0), R(0)))
             /\ Clause("optimized", IF r.st.opt THEN Converged(Q, n, c.acc, "1.000000001")
                                    ELSE ~Converged(Q, n, c.acc, "0.999999999"))
     /\ Clause("fitness is the value at the mean",
               \E m \in 1 .. Len(r.rest) : VClose(r.rest[m].x, Q.x, R(0), R(0)) /\ REq(r.rest[m].y, r.st.y))
     /\ Clause("bounds of the mean", Bounds(c) = <<>> \/
               \A i \in 1 .. n : (Bounds(c)[1][i] \ominus (R("1e-14") \otimes RAbs(Bounds(c)[1][i]))) \preceq Q.x[i]
                              /\ Q.x[i] \preceq (Bounds(c)[2][i] \oplus (R("1e-14") \otimes RAbs(Bounds(c)[2][i]))))
  IN [ok |-> ok, st |-> Q, pos |-> drawn.pos]

Generation(r) ==
  \E v \in {GenerationVerdict(r)} :
     /\ v.ok
     /\ st' = v.st
     /\ pos' = v.pos
     /\ live' = (~r.st.und /\ ~r.st.opt /\ r.st.g = r.stop)
     /\ UNCHANGED <<case, strat>>

Step(r) ==
  \/ r.e = "run" /\ Start(r)
  \/ r.e = "gen" /\ st.g < 0 /\ First(r)
  \/ r.e = "gen" /\ st.g >= 0 /\ Generation(r)

Next ==
  \/ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
===============================================================================
