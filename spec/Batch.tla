--------------------------------- MODULE Batch ---------------------------------
(* Applying a command to every file of a list, as seen from outside: whatever   *)
(* happens, and whenever it stops, no original is lost before every file has    *)
(* been replaced; success means that every file has been replaced and that no   *)
(* backup is left.  Contents: 0 the original, k the result of applying the      *)
(* command k times, -1 anything else, -2 no such file.                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Files, MaxLen

Original == 0
Broken == -1
Absent == -2
Contents == -2 .. MaxLen
Lists == UNION {[1 .. k -> Files] : k \in 0 .. MaxLen}
Want(list, f) == Cardinality({i \in 1 .. Len(list) : list[i] = f})
Listed(list) == {list[i] : i \in 1 .. Len(list)}

Replaced(list, own) == \A f \in Listed(list) : own[f] = Want(list, f)
Safe(list, own, bak) == ~Replaced(list, own) => \A f \in Listed(list) : own[f] = Original \/ bak[f] = Original
Success(list, own, bak) == Replaced(list, own) /\ \A f \in Listed(list) : bak[f] = Absent
Untouched(list, own) == \A f \in Files \ Listed(list) : own[f] = Original

VARIABLES list, own, bak, status
bvars == <<list, own, bak, status>>

BatchInit ==
  /\ list \in Lists /\ own = [f \in Files |-> Original] /\ status = "running"
  /\ bak \in [Files -> {Absent, Broken}]   \* there may be old backups

BatchStep ==
  /\ status = "running" /\ list' = list
  /\ own' \in [Files -> Contents] /\ bak' \in [Files -> Contents]
  /\ status' \in {"running", "success", "failure", "killed"}
  /\ Safe(list, own', bak') /\ Untouched(list, own')
  /\ status' = "success" => Success(list, own', bak')

BatchSpec == BatchInit /\ [][BatchStep]_bvars
================================================================================
