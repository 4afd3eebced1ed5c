-------------------------------- MODULE Outcome --------------------------------
(* A run of a fitting program: the stages, what each writes, and how it ends.   *)
(* Facts about a run: args (none, wrong number, unreadable, good), model (good, *)
(* bad, or too big for the memory), config (refused or not), ending (optimized, underflow, stopped,     *)
(* failed).                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Variant, Gen

Facts == [args : {"none", "count", "unreadable", "good"}, model : {"good", "bad", "excessive"}, config : {"good", "refused"},
          ending : {"optimized", "underflow", "stopped", "failed"}]

Status(f) ==
  CASE f.args = "none" -> 0
    [] f.args \in {"count", "unreadable"} -> 8
    [] f.model = "bad" -> 16
    [] f.model = "excessive" -> 64
    [] f.config = "refused" -> 8
    [] f.ending = "failed" -> 16
    [] f.ending = "optimized" -> 0
    [] f.ending = "underflow" -> 1
    [] OTHER -> 2

Finished(f) == f.args = "good" /\ f.model = "good" /\ f.config = "good" /\ f.ending # "failed"

VARIABLES facts,   \* about the run
          stage,   \* of the program
          out,     \* what has been written
          status   \* exit status or -1
vars == <<facts, stage, out, status>>

Init == facts \in Facts /\ stage = "start" /\ out = <<>> /\ status = -1

Exit(s) == status' = s /\ stage' = "end" /\ UNCHANGED <<facts, out>>
Go(s, w) == stage' = s /\ out' = out \o w /\ UNCHANGED <<facts, status>>

Next ==
  \/ stage = "start" /\ (CASE facts.args = "none" -> (stage' = "end" /\ out' = <<"usage">> /\ status' = 0 /\ UNCHANGED facts)
                           [] facts.args = "count" -> Exit(8)
                           [] OTHER -> Go("arguments", <<"command">>))
  \/ stage = "arguments" /\ (IF facts.args = "unreadable" THEN Exit(8) ELSE Go("parse", <<"model">>))
  \/ stage = "parse" /\ (CASE facts.model = "bad" -> Exit(16) [] facts.model = "excessive" -> Exit(64) [] OTHER -> Go("configure", <<>>))
  \/ stage = "configure" /\ (IF facts.config = "refused" THEN Exit(8) ELSE Go("search", <<>>))
  \/ stage = "search" /\ (IF facts.ending = "failed"
                          THEN (IF Variant = "partial" THEN Go("report", <<"log">>) ELSE Exit(16))
                          ELSE Go("report", <<"log">>))
  \/ stage = "report" /\ Go("finish", <<"message", "data", "tables">>)
  \/ stage = "finish" /\ Exit(CASE facts.ending = "optimized" -> 0
                                [] facts.ending = "underflow" -> (IF Variant = "lenient" THEN 0 ELSE 1)
                                [] OTHER -> 2)

\* the status is documented, an error leaves no result, and a finished run contains every block, in this order
StatusIsDocumented == stage = "end" => status = Status(facts)
NoResultOnError == stage = "end" /\ ~Finished(facts) => \A k \in 1 .. Len(out) : out[k] \notin {"message", "data", "tables"}
Complete == stage = "end" /\ Finished(facts) => out = <<"command", "model", "log", "message", "data", "tables">>
SuccessIsConvergence == stage = "end" /\ status = 0 => facts.args = "none" \/ (Finished(facts) /\ facts.ending = "optimized")
Ends == <>(stage = "end")

Emit == Gen /\ stage = "end" => PrintT(<<"CASE", ToJson(facts)>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
===============================================================================
