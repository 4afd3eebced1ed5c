----------------------------- MODULE ExtractModel -----------------------------
(* All documents of a few lines by kinds of lines, for every tool: what the     *)
(* tool copies is exactly what is between the markers; a document composed of   *)
(* blocks and other text yields the contents of the blocks in order.            *)
EXTENDS Extract, Json

CONSTANTS MaxLines, Variant, Gen

VARIABLES tool, lines,
          out,      \* copied so far
          open,     \* the version of the markers of the open block or 0
          body,     \* the contents of the blocks, as composed
          near      \* a line which resembles a marker is in the document
vars == <<tool, lines, out, open, body, near>>

Versions == [ecom |-> <<"command">>, edat |-> <<"data">>, elog |-> <<"log">>, emes |-> <<"message", "mesg">>, emod |-> <<"model", "job", "input">>]
Others == [ecom |-> "log", edat |-> "model", elog |-> "message", emes |-> "command", emod |-> "data"]

Start(v) == "<" \o v \o ">"
End(v) == "</" \o v \o ">"
Texts == {"", "text <b>x</b>", Start(Others[tool]), End(Others[tool])}
Resembling == LET v == Versions[tool][1] IN {" " \o Start(v), Start(v) \o " ", Start(v) \o End(v), " " \o End(v), End(v) \o "\t", v, "</" \o v, "<" \o v}

\* what the tool does with the next line
Step(s) ==
  LET m == Markers[tool]
      opened == open # 0
  IN CASE Variant = "none" -> (IF opened /\ s \notin m.end THEN Append(out, s) ELSE out)
       [] Variant = "inclusive" -> (IF opened THEN Append(out, s) ELSE out)
       [] Variant = "first" -> (IF opened /\ s \notin m.end /\ Len(body) = 1 THEN Append(out, s) ELSE out)
       [] OTHER -> (IF opened /\ s \notin m.end /\ s \notin m.start THEN Append(out, s) ELSE out)

Add(s) == lines' = Append(lines, s) /\ out' = Step(s) /\ UNCHANGED tool

Outside == open = 0 /\ \E s \in Texts \cup {End(Versions[tool][k]) : k \in 1 .. Len(Versions[tool])} : Add(s) /\ UNCHANGED <<open, body, near>>
Begin == open = 0 /\ \E k \in 1 .. Len(Versions[tool]) : Add(Start(Versions[tool][k])) /\ open' = k /\ body' = Append(body, <<>>) /\ UNCHANGED near
Inside == open # 0 /\ \E s \in Texts \cup {Start(Versions[tool][open])} :
            Add(s) /\ body' = [body EXCEPT ![Len(body)] = Append(@, s)] /\ UNCHANGED <<open, near>>
Finish == open # 0 /\ Add(End(Versions[tool][open])) /\ open' = 0 /\ UNCHANGED <<body, near>>
Resemble == /\ ~near /\ near' = TRUE
            /\ \E s \in Resembling :
                 /\ Add(s)
                 /\ body' = IF open = 0 THEN body ELSE [body EXCEPT ![Len(body)] = Append(@, s)]
                 /\ UNCHANGED open

Init == tool \in Tools /\ lines = <<>> /\ out = <<>> /\ open = 0 /\ body = <<>> /\ near = FALSE
Next == Len(lines) < MaxLines /\ (Outside \/ Begin \/ Inside \/ Finish \/ Resemble)
Spec == Init /\ [][Next]_vars

CopiesTheBlocks == out = FlattenSeq(body)
Defined == out = Extract(tool, lines)
SelectSeqIndices(s) == LET is == SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : Between(tool, s, i)) IN [k \in 1 .. Len(is) |-> s[is[k]]]
BetweenTheMarkers == out = SelectSeqIndices(lines)
Emit == Gen /\ lines # <<>> => PrintT(<<"CASE", ToJson([tool |-> tool, lines |-> lines])>>)
===============================================================================
