------------------------------ MODULE StopTrace ------------------------------
(* A search passes through the same states whatever its stop generation and     *)
(* its tracing.  "ref" records list the states after generations 0, 1, 2, ...   *)
(* of a case, ending with the first one that satisfies a stop rule (or the last *)
(* one asked for); "full" records are complete runs of the same case with any   *)
(* stop generation and trace modulus.                                           *)
EXTENDS Integers, Sequences, TLC, Real64, Json, IOUtils, FiniteSets, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ref
vars == <<l, ref>>

Clause(name, p, info) == p \/ (PrintT(<<"REJECTED", l, name, info>>) /\ FALSE)

Ended(st) == st.opt \/ st.und

RefOk(r) ==
  LET n == Len(r.states)
  IN /\ \A i \in 1 .. n : Clause("states of the reference", r.states[i].g = i - 1, i)
     /\ \A i \in 1 .. n - 1 : Clause("no stop rule applies before the last", ~Ended(r.states[i]), i)
     /\ Clause("not both", ~(r.states[n].opt /\ r.states[n].und), n)

SameState(a, b) ==
  /\ Clause("generation number", a.g = b.g, <<a.g, b.g>>)
  /\ \A f \in {"x", "d", "B", "C", "ps", "pc"} : Clause(f, a[f] = b[f], <<a[f], b[f]>>)
  /\ Clause("s", a.s = b.s, <<a.s, b.s>>)
  /\ Clause("fitness", a.y = b.y, <<a.y, b.y>>)
  /\ Clause("status", a.opt = b.opt /\ a.und = b.und, <<a.opt, a.und, b.opt, b.und>>)
  /\ Clause("uncertainties", a.z = b.z, <<a.z, b.z>>)

Trc(c) == IF "trace" \in DOMAIN c THEN c.trace ELSE 0

Ok(r) ==
  LET S == ref.states
      last == S[Len(S)]
      stop == r.case.stop
      G == IF stop <= last.g THEN stop ELSE last.g
      final == S[G + 1]
      m == Trc(r.case)
      \* lines of the trace: at multiples of the modulus and on convergence, but not on underflow
      due == SelectSeq([i \in 1 .. G |-> i], LAMBDA i : ~S[i + 1].und /\ (S[i + 1].opt \/ (m > 0 /\ i % m = 0)))
      line(i) == LET t == S[i + 1] IN <<i, t.y, RMul(t.s, t.d[1]), RMul(t.s, t.d[Len(t.d)])>>
  IN /\ Clause("the reference covers the run", stop <= last.g \/ Ended(last), stop)
     /\ Clause("no error", r.error = "", r.error)
     /\ SameState(final, r.st)
     /\ "plain" \notin DOMAIN r.case =>
          /\ Clause("trace lines", Len(r.trace) = Len(due), <<Len(r.trace), due>>)
          /\ \A k \in 1 .. Len(due) :
               Clause("trace line", /\ r.trace[k][1] = due[k]
                                    /\ REq(r.trace[k][2], line(due[k])[2])
                                    /\ RClose(r.trace[k][3], line(due[k])[3], R("1e-14"), R(0))
                                    /\ RClose(r.trace[k][4], line(due[k])[4], R("1e-14"), R(0)), <<r.trace[k], line(due[k])>>)

Step(r) ==
  IF r.e = "ref"
  THEN (\E ok \in {RefOk(r)} : ok) /\ ref' = r
  ELSE (\E ok \in {Ok(r)} : ok) /\ UNCHANGED ref

Init == l = 1 /\ ref = [e |-> "none"]
Next ==
  \/ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
===============================================================================
