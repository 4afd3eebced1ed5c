-------------------------------- MODULE Extract --------------------------------
(* Extraction of a block from a result file: the lines between the markers, as  *)
(* a whole line each.  In an open block only its end markers have a meaning.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Markers ==
  [ecom |-> [start |-> {"<command>"}, end |-> {"</command>"}],
   edat |-> [start |-> {"<data>"}, end |-> {"</data>"}],
   elog |-> [start |-> {"<log>"}, end |-> {"</log>"}],
   emes |-> [start |-> {"<message>", "<mesg>"}, end |-> {"</message>", "</mesg>"}],
   emod |-> [start |-> {"<model>", "<job>", "<input>"}, end |-> {"</model>", "</job>", "</input>"}]]

Tools == DOMAIN Markers

\* the lines copied by a tool: a state machine over the lines
Extract(tool, lines) ==
  LET m == Markers[tool]
  IN FoldLeft(LAMBDA acc, s :
       IF acc.open THEN (IF s \in m.end THEN [acc EXCEPT !.open = FALSE] ELSE [acc EXCEPT !.out = Append(@, s)])
       ELSE [acc EXCEPT !.open = s \in m.start],
       [open |-> FALSE, out |-> <<>>], lines).out

\* line i is between the markers
Between(tool, lines, i) ==
  LET m == Markers[tool]
  IN /\ lines[i] \notin m.end
     /\ \E j \in 1 .. i - 1 : lines[j] \in m.start /\ \A k \in j + 1 .. i - 1 : lines[k] \notin m.end

Count(lines, s) == Cardinality({i \in 1 .. Len(lines) : lines[i] = s})
===============================================================================
