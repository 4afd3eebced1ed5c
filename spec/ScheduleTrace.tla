---------------------------- MODULE ScheduleTrace ----------------------------
(* Records of concurrent cost evaluations under prescribed schedules ("model"), *)
(* and of complete program runs ("app"): lists of the lines of several outputs. *)
EXTENDS Integers, Sequences, TLC, Real64, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, p, info) == p \/ (PrintT(<<"REJECTED", l, name, info>>) /\ FALSE)

ModelOk(r) ==
  /\ Clause("no error", r.error = "", r.error)
  /\ \A k \in 1 .. Len(r.together) :
       Clause("costs do not depend on concurrent evaluations", r.together[k].y = r.alone,
              <<k, r.together[k], r.alone>>)

AppOk(r) ==
  \A k \in 2 .. Len(r.runs) :
    /\ Clause("exit status", r.runs[k].rc = r.runs[1].rc, k)
    /\ Clause("length of the output", Len(r.runs[k].out) = Len(r.runs[1].out), k)
    /\ \A i \in 1 .. Len(r.runs[1].out) :
         Clause("output", r.runs[k].out[i] = r.runs[1].out[i], <<k, i, r.runs[k].out[i], r.runs[1].out[i]>>)

Ok(r) == IF r.e = "app" THEN AppOk(r) ELSE ModelOk(r)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
