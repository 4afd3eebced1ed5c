------------------------------- MODULE BatchTrace -------------------------------
(* Runs of the scripts.                                                         *)
(* e = "foreach": list of files (numbers), contents of the files and of their   *)
(*   backups afterwards, other files left behind, exit status (negative if      *)
(*   killed), fault: was one injected, refused: does the command fail for one.  *)
(* e = "erun": command and model of the result file, what the program received, *)
(*   what it wrote, what the target contains, the values and the status.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Text, Extract, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

B == INSTANCE Batch WITH Files <- 1 .. 3, MaxLen <- 9, list <- 0, own <- 0, bak <- 0, status <- 0

Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE

ForeachOk(r) ==
  LET
      info == [list |-> r.list, own |-> r.own, bak |-> r.bak, status |-> r.status, at |-> r.at, mode |-> r.mode, left |-> r.left]
  IN /\ Clause("an original is lost", B!Safe(r.list, r.own, r.bak), info)
     /\ Clause("a file that is not listed is changed", B!Untouched(r.list, r.own), info)
     /\ Clause("failure not reported", r.status = 0 => B!Success(r.list, r.own, r.bak), info)
     /\ Clause("files left behind", r.status = 0 => r.left = <<>>, info)
     /\ Clause("nothing failed", ~r.fault /\ ~r.refused /\ r.list # <<>> => r.status = 0, info)

HasText(line, s) ==
  LET a == Chars(line)
      b == Chars(s)
  IN \E k \in 1 .. Len(a) - Len(b) + 1 : SubSeq(a, k, k + Len(b) - 1) = b

\* the cost in a result; the value may be understood as a pattern with dots
Likeness(a, b) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : a[k] = b[k] \/ b[k] = "."
LikeText(line, s) ==
  LET a == Chars(line)
      b == Chars(s)
  IN \E k \in 1 .. Len(a) - Len(b) + 1 : Likeness(SubSeq(a, k, k + Len(b) - 1), b)
Cell(v) == "<td><strong>" \o v \o "</strong></td>"

Tokens(line) ==
  LET s == TLCEval(Chars(line))
      b == TLCEval(SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : s[i] # " " /\ (i = 1 \/ s[i - 1] = " ")))
      e == TLCEval(SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : s[i] # " " /\ (i = Len(s) \/ s[i + 1] = " ")))
  IN [k \in 1 .. Len(b) |-> Str(SubSeq(s, b[k], e[k]))]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))

ErunOk(r) ==
  LET command == TLCEval(Extract("ecom", r.result))
      model == TLCEval(Extract("emod", r.result))
      all == \A k \in 1 .. Len(r.values) : \E j \in 1 .. Len(r.written) : HasText(r.written[j], Cell(r.values[k]))
      none == \E k \in 1 .. Len(r.values) : \A j \in 1 .. Len(r.written) : ~LikeText(r.written[j], Cell(r.values[k]))
  IN /\ r.recorded => /\ Clause("recorded command", r.argv = Flatten([k \in 1 .. Len(command) |-> Tokens(command[k])]), <<command, r.argv>>)
                      /\ Clause("recorded model", r.stdin = model, <<model, r.stdin>>)
     /\ Clause("stored output", r.target = r.written, <<r.target, r.written>>)
     /\ Clause("trace of the new result", r.out = Extract("elog", r.written), r.out)
     /\ Clause("values found", all => r.status = 0, <<r.values, r.status>>)
     /\ Clause("values missing", none => r.status # 0, <<r.values, r.status>>)

Ok(r) == IF r.e = "foreach" THEN ForeachOk(r) ELSE ErunOk(r)

Init == l = 1
Next == l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
Done == l > Len(Trace) /\ UNCHANGED l
Spec == Init /\ [][Next \/ Done]_l
================================================================================
