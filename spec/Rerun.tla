--------------------------------- MODULE Rerun ---------------------------------
(* Repeating the run recorded in a result file and comparing values with the    *)
(* new result: the recorded command receives the recorded model, its output     *)
(* replaces the target, and every value must occur in it.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Variant, Gen, MaxValues

VARIABLES values,   \* for each value: does the new result contain it
          stale,    \* for each value: does an old target contain it
          program,  \* works or fails (without a result)
          target,   \* "none", "old" or "new" or "empty"
          k, status
vars == <<values, stale, program, target, k, status>>

Init ==
  /\ values \in UNION {[1 .. n -> BOOLEAN] : n \in 0 .. MaxValues} /\ stale \in [1 .. Len(values) -> BOOLEAN]
  /\ program \in {"good", "fails"} /\ target \in {"none", "old"} /\ k = 0 /\ status = -1

Found(n) == CASE target = "new" -> values[n] [] target = "old" -> stale[n] [] OTHER -> FALSE

Run ==
  /\ k = 0 /\ status = -1 /\ k' = 1 /\ UNCHANGED <<values, stale, program, status>>
  /\ target' = IF program = "good" THEN "new" ELSE IF Variant = "keep" /\ target = "old" THEN "old" ELSE "empty"
Compare ==
  /\ k >= 1 /\ k <= Len(values) /\ status = -1 /\ UNCHANGED <<values, stale, program, target>>
  /\ IF Found(k) THEN (IF Variant = "any" THEN status' = 0 /\ k' = k ELSE k' = k + 1 /\ status' = status)
     ELSE IF Variant \in {"last", "any"} /\ k < Len(values) THEN k' = k + 1 /\ status' = status ELSE status' = 1 /\ k' = k
Finish == k > Len(values) /\ k >= 1 /\ status = -1 /\ status' = 0 /\ UNCHANGED <<values, stale, program, target, k>>
Next == Run \/ Compare \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Expected == IF Len(values) = 0 \/ (program = "good" /\ \A n \in 1 .. Len(values) : values[n]) THEN 0 ELSE 1
Correct == status # -1 => (status = 0) = (Expected = 0)
Ends == <>(status # -1)
Emit == Gen /\ status # -1 => PrintT(<<"CASE", ToJson([values |-> values, stale |-> stale, program |-> program, old |-> target # "none"])>>)
================================================================================
