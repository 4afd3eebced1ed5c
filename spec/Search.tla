------------------------------- MODULE Search -------------------------------
(* The control structure of the search: populations are sampled, evaluated by  *)
(* concurrent threads (one per individual), joined, ranked and recombined      *)
(* until a stop rule applies.  The environment chooses the costs and whether   *)
(* the variances have converged; the scheduler chooses the interleaving.       *)
(*                                                                             *)
(* Variant names a deliberately broken design, which must be refuted:          *)
(*   "early"   selection does not wait for all threads                         *)
(*   "shared"  the threads share one scratch variable                          *)
(*   "lost"    an exception in a thread is not propagated                      *)
(*   "late"    convergence is tested before the stop rule underflow            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lambda, Mu, Stop, Costs, Variant, Faults, Gen

Ind == 1 .. Lambda
None == -1

VARIABLES g,        \* generation number
          phase,    \* "sample", "evaluate", "select", "end"
          cost,     \* the true costs of the individuals of this generation
          fault,    \* the individuals whose evaluation throws
          th,       \* thread states: "new", "running", "stored", "joined"
          scratch,  \* scratch data of each thread (Variant shared: of all)
          y,        \* the recorded costs
          parents,  \* the selected individuals
          rules,    \* the stop rules satisfied after each generation
          status,   \* "running", "underflow", "optimized", "stopped", "failed"
          ends      \* the order in which the threads have stored their result

vars == <<g, phase, cost, fault, th, scratch, y, parents, rules, status, ends>>

TypeOK ==
  /\ g \in 0 .. Stop
  /\ phase \in {"sample", "evaluate", "select", "end"}
  /\ th \in [Ind -> {"new", "running", "stored", "joined"}]
  /\ status \in {"running", "underflow", "optimized", "stopped", "failed"}

Init ==
  /\ g = 0 /\ phase = "sample"
  /\ cost = [k \in Ind |-> None] /\ fault = {}
  /\ th = [k \in Ind |-> "new"]
  /\ scratch = [k \in Ind |-> None]
  /\ y = [k \in Ind |-> None]
  /\ parents = {} /\ rules = <<>>
  /\ status = "running" /\ ends = <<>>

Sample ==
  /\ phase = "sample" /\ g < Stop
  /\ cost' \in [Ind -> Costs]
  /\ fault' \in {F \in SUBSET Ind : Cardinality(F) <= Faults}
  /\ th' = [k \in Ind |-> "new"]
  /\ y' = [k \in Ind |-> None]
  /\ ends' = <<>>
  /\ phase' = "evaluate"
  /\ UNCHANGED <<g, scratch, parents, rules, status>>

StopRule ==
  /\ phase = "sample" /\ g = Stop
  /\ status' = "stopped" /\ phase' = "end"
  /\ UNCHANGED <<g, cost, fault, th, scratch, y, parents, rules, ends>>

Slot(k) == IF Variant = "shared" THEN 1 ELSE k

\* a thread starts computing, then stores its result
Begin(k) ==
  /\ phase = "evaluate" /\ th[k] = "new"
  /\ th' = [th EXCEPT ![k] = "running"]
  /\ scratch' = [scratch EXCEPT ![Slot(k)] = cost[k]]
  /\ UNCHANGED <<g, phase, cost, fault, y, parents, rules, status, ends>>

Store(k) ==
  /\ phase = "evaluate" /\ th[k] = "running"
  /\ th' = [th EXCEPT ![k] = "stored"]
  /\ y' = IF k \in fault THEN y ELSE [y EXCEPT ![k] = scratch[Slot(k)]]
  /\ ends' = Append(ends, k)
  /\ UNCHANGED <<g, phase, cost, fault, scratch, parents, rules, status>>

Join ==
  /\ phase = "evaluate"
  /\ IF Variant = "early" THEN \A k \in 1 .. Mu : th[k] = "stored" ELSE \A k \in Ind : th[k] = "stored"
  /\ IF fault # {} /\ Variant # "lost"
     THEN status' = "failed" /\ phase' = "end"
     ELSE status' = status /\ phase' = "select"
  /\ UNCHANGED <<g, cost, fault, th, scratch, y, parents, rules, ends>>

\* the individuals that must be selected: mu of them, none of the others is better
Best(v, P) == Cardinality(P) = Mu /\ \A p \in P, q \in Ind \ P : v[p] <= v[q]
Underflow(v) == \A P \in SUBSET Ind : Best(v, P) => \E q \in Ind \ P : \A p \in Ind : v[q] <= v[p]
               \* the best of the non-selected individuals is as fit as the best individual

Select(converged) ==
  /\ phase = "select"
  /\ g' = g + 1
  /\ \E P \in SUBSET Ind :
       /\ Best(y, P)
       /\ LET under == \E q \in Ind \ P : \A p \in P : y[q] <= y[p]
              met == (IF under THEN {"underflow"} ELSE {})
                      \cup (IF converged THEN {"optimized"} ELSE {})
                      \cup (IF g + 1 = Stop THEN {"stopped"} ELSE {})
              st == IF Variant = "late"
                    THEN IF converged THEN "optimized" ELSE IF under THEN "underflow" ELSE "running"
                    ELSE IF under THEN "underflow" ELSE IF converged THEN "optimized" ELSE "running"
          IN /\ parents' = P
             /\ rules' = Append(rules, met)
             /\ status' = st
             /\ phase' = IF st = "running" THEN "sample" ELSE "end"
             /\ Gen => PrintT(<<"CASE", ToJson([ends |-> ends])>>)
  /\ UNCHANGED <<cost, fault, th, scratch, y, ends>>

Done == phase = "end" /\ UNCHANGED vars

Next ==
  \/ Sample \/ StopRule \/ Join \/ Done
  \/ \E k \in Ind : Begin(k) \/ Store(k)
  \/ \E b \in BOOLEAN : Select(b)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C01 *)
Attribution == phase = "select" => y = cost                          \* every cost is that of its individual
OnlyAfterAll == phase = "select" => \A k \in Ind : th[k] = "stored"
SelectionIsBest == rules # <<>> /\ phase \in {"sample", "end"} /\ status # "failed" => Best(cost, parents)
(* C06 *)
FaultsSurface == phase \in {"select"} => fault = {}
(* C05 *)
Finished == phase = "end"
RulesApplied ==
  /\ status = "stopped" => g = Stop /\ \A i \in 1 .. Len(rules) : rules[i] \subseteq {"stopped"}
  /\ status = "underflow" => "underflow" \in rules[Len(rules)]
  /\ status = "optimized" => "optimized" \in rules[Len(rules)] /\ "underflow" \notin rules[Len(rules)]
  /\ status \in {"underflow", "optimized"} => \A i \in 1 .. Len(rules) - 1 : rules[i] = {}
Terminates == <>(phase = "end")
=============================================================================
