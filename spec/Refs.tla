--------------------------------- MODULE Refs ---------------------------------
(* References between parameters: the parser dereferences parameters one after  *)
(* the other (in the order of their identifiers), replacing a reference by that *)
(* of the referred parameter until a parameter without reference is reached,    *)
(* whose value is taken over.                                                   *)
(*                                                                              *)
(* Variant "unbounded": without a limit on the number of hops, only an          *)
(* immediate self reference is recognized (does not terminate for some cycles); *)
(* Variant "once": only one hop.                                                *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS N, Variant, Gen

Names == 1 .. N
None == 0
Unknown == N + 1

VARIABLES given, ref, val, i, hops, status
vars == <<given, ref, val, i, hops, status>>

Init ==
  /\ given \in [Names -> 0 .. N + 1]
  /\ ref = given /\ val = [k \in Names |-> k] /\ i = 1 /\ hops = 0 /\ status = "running"
  /\ Gen => PrintT(<<"CASE", ToJson([ref |-> given])>>)

Limit == IF Variant = "unbounded" THEN 1000000 ELSE N

Advance ==
  /\ status = "running"
  /\ IF i > N THEN status' = "done" /\ UNCHANGED <<given, ref, val, i, hops>>
     ELSE IF ref[i] = None THEN i' = i + 1 /\ hops' = 0 /\ UNCHANGED <<given, ref, val, status>>
     ELSE IF ref[i] = Unknown THEN status' = "error" /\ UNCHANGED <<given, ref, val, i, hops>>
     ELSE IF ref[i] = i \/ (Variant # "unbounded" /\ hops + 1 >= N)
          THEN status' = "error" /\ UNCHANGED <<given, ref, val, i, hops>>
     ELSE LET k == ref[i]
          IN /\ val' = IF ref[k] = None \/ Variant = "once" THEN [val EXCEPT ![i] = val[k]] ELSE val
             /\ ref' = [ref EXCEPT ![i] = IF Variant = "once" THEN None ELSE ref[k]]
             /\ hops' = IF Variant = "unbounded" THEN 0 ELSE hops + 1
             /\ UNCHANGED <<given, i, status>>

Next == Advance \/ (status # "running" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Advance)

\* the meaning of references
RECURSIVE Follow(_, _)
Follow(k, n) == IF given[k] = None THEN k ELSE IF given[k] = Unknown \/ n = 0 THEN 0 ELSE Follow(given[k], n - 1)

Correct == status = "done" => \A k \in Names : Follow(k, N) # 0 /\ val[k] = Follow(k, N)
Rejects == status = "error" => \E k \in Names : Follow(k, N) = 0
Terminates == <>(status # "running")
===============================================================================
