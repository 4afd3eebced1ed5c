------------------------------ MODULE Interleave ------------------------------
(* Concurrent evaluations of the cost function of one model.  A thread loads the *)
(* parameter values of its individual, and then for every section computes the   *)
(* optical depth point by point and finally adds up a cost.  Everything but the  *)
(* model itself is private to the evaluation.                                    *)
(*                                                                               *)
(* Variants that must be refuted: "params" the dereferenced parameter values are *)
(* stored in the model, "depth" the optical depths are stored in the section.    *)
(* Gen: print the schedules (the thread that makes the next step).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Sections, Points, Variant, Gen

T == 1 .. Threads
VARIABLES params, depth, s, p, load, cost, sched
vars == <<params, depth, s, p, load, cost, sched>>

Slot(t) == IF Variant = "params" THEN 1 ELSE t
DSlot(t) == IF Variant = "depth" THEN 1 ELSE t

Init ==
  /\ params = [t \in T |-> 0]
  /\ depth = [t \in T |-> [i \in 1 .. Points |-> 0]]
  /\ s = [t \in T |-> 0] /\ p = [t \in T |-> 0] /\ load = [t \in T |-> 0]
  /\ cost = [t \in T |-> <<>>]
  /\ sched = <<>>

\* The steps between two evaluations of the profile function are one step: the
\* harness can only interleave evaluations at the calls of the profile function.
Step(t) ==
  /\ s[t] < Sections
  /\ LET pars == IF s[t] = 0 /\ p[t] = 0 THEN [params EXCEPT ![Slot(t)] = t] ELSE params
         ld == IF p[t] = 0 THEN pars[Slot(t)] ELSE load[t]   \* the lines of the section are set up
         d == [depth EXCEPT ![DSlot(t)][p[t] + 1] = ld]
         last == p[t] + 1 = Points
     IN /\ params' = pars
        /\ depth' = d
        /\ load' = [load EXCEPT ![t] = ld]
        /\ p' = [p EXCEPT ![t] = IF last THEN 0 ELSE p[t] + 1]
        /\ s' = [s EXCEPT ![t] = IF last THEN s[t] + 1 ELSE s[t]]
        /\ cost' = [cost EXCEPT ![t] = IF last THEN @ \o d[DSlot(t)] ELSE @]
  /\ sched' = IF Gen THEN Append(sched, t - 1) ELSE sched
  /\ Gen /\ (\A q \in T : (q # t => s[q] = Sections) /\ (q = t => s[q] = Sections - 1 /\ p[q] = Points - 1))
       => PrintT(<<"CASE", ToJson(sched')>>)

Next == \/ \E t \in T : Step(t)
        \/ (\A t \in T : s[t] = Sections) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* the cost of an individual depends on that individual alone
Independent == \A t \in T : \A i \in 1 .. Len(cost[t]) : cost[t][i] = t
===============================================================================
