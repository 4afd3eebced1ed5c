-------------------------------- MODULE Foreach --------------------------------
(* The batch script: backup all, then apply the command and move the result     *)
(* over the source, file by file, then remove the backups.  Every step can      *)
(* fail, and the script can be killed before, after and in the middle of it.    *)
(* Moving is atomic or, between file systems, copying and removing.             *)
EXTENDS Batch, TLC, Json

CONSTANTS Variant, Gen

VARIABLES target,   \* content of the result of the command in the working directory
          pc,       \* phase
          i,        \* the turn
          sub,      \* part of the step
          atomic    \* moving
vars == <<list, own, bak, status, target, pc, i, sub, atomic>>

Init ==
  /\ BatchInit /\ target = Absent /\ i = 1 /\ sub = 1 /\ atomic \in BOOLEAN
  /\ pc = IF Variant \in {"nobackup", "lazy"} THEN "apply" ELSE "backup"

Lazy == Variant = "lazy"

\* the steps of the script; Turn(p, q): the next file of phase p, or phase q
Turn(p, q) == IF i < Len(list) THEN pc' = p /\ i' = i + 1 /\ sub' = 1 ELSE pc' = q /\ i' = 1 /\ sub' = 1
Sub == sub' = sub + 1 /\ UNCHANGED <<pc, i>>
f == list[i]

Backup ==
  /\ pc = "backup" /\ i <= Len(list) /\ UNCHANGED <<own, target>>
  /\ \/ sub = 1 /\ bak' = [bak EXCEPT ![f] = Broken] /\ Sub
     \/ sub = 2 /\ bak' = [bak EXCEPT ![f] = own[f]] /\ Turn("backup", "apply")

Apply ==
  /\ pc = "apply" /\ i <= Len(list)
  /\ IF Lazy /\ sub = 1 THEN bak' = [bak EXCEPT ![f] = Broken] /\ Sub /\ UNCHANGED <<own, target>>
     ELSE IF Lazy /\ sub = 2 THEN bak' = [bak EXCEPT ![f] = own[f]] /\ Sub /\ UNCHANGED <<own, target>>
     ELSE LET s == IF Lazy THEN sub - 2 ELSE sub
              next == IF Variant = "early" THEN pc' = "early" /\ UNCHANGED <<i, sub>> ELSE Turn("apply", "clean")
          IN /\ UNCHANGED bak
             /\ CASE s = 1 -> target' = Broken /\ Sub /\ UNCHANGED own
                  [] s = 2 -> target' = (IF own[f] >= 0 THEN own[f] + 1 ELSE Broken) /\ Sub /\ UNCHANGED own
                  [] s = 3 -> IF atomic THEN own' = [own EXCEPT ![f] = target] /\ target' = Absent /\ next
                              ELSE own' = [own EXCEPT ![f] = Absent] /\ Sub /\ UNCHANGED target
                  [] s = 4 -> own' = [own EXCEPT ![f] = Broken] /\ Sub /\ UNCHANGED target
                  [] s = 5 -> own' = [own EXCEPT ![f] = target] /\ Sub /\ UNCHANGED target
                  [] s = 6 -> target' = Absent /\ next /\ UNCHANGED own

Early == pc = "early" /\ bak' = [bak EXCEPT ![f] = Absent] /\ Turn("apply", "clean") /\ UNCHANGED <<own, target>>
Clean == pc = "clean" /\ i <= Len(list) /\ bak' = [bak EXCEPT ![f] = Absent] /\ Turn("clean", "end") /\ UNCHANGED <<own, target>>

Step == status = "running" /\ list # <<>> /\ (Backup \/ Apply \/ Early \/ Clean) /\ UNCHANGED <<list, status, atomic>>
Finish == status = "running" /\ (pc = "end" \/ list = <<>>) /\ status' = "success" /\ UNCHANGED <<list, own, bak, target, pc, i, sub, atomic>>

\* a step fails; the script stops, or goes on to the next file, or tidies up
Fault ==
  /\ status = "running" /\ pc \in {"backup", "apply", "early", "clean"} /\ list # <<>>
  /\ CASE Variant = "ignore" -> Turn(pc, IF pc = "backup" THEN "apply" ELSE IF pc = "apply" THEN "clean" ELSE "end")
                                /\ UNCHANGED <<list, own, bak, status, target, atomic>>
       [] Variant = "tidy" -> bak' = [g \in Files |-> Absent] /\ status' = "failure" /\ UNCHANGED <<list, own, target, pc, i, sub, atomic>>
       [] OTHER -> status' = "failure" /\ UNCHANGED <<list, own, bak, target, pc, i, sub, atomic>>
Kill == status = "running" /\ status' = "killed" /\ UNCHANGED <<list, own, bak, target, pc, i, sub, atomic>>

Next == Step \/ Finish \/ Fault \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Finish)

AlwaysSafe == Safe(list, own, bak) /\ Untouched(list, own)
Reported == status = "success" => Success(list, own, bak)
Refines == BatchSpec
Ends == <>(status # "running")

Emit == Gen /\ status = "success" => PrintT(<<"CASE", ToJson([list |-> list, atomic |-> atomic, old |-> FALSE])>>)
================================================================================
