----------------------------- MODULE StreamsModel -----------------------------
(* Several normal generators that are called in turn and copied: each has its    *)
(* own uniform stream and its own second deviate.  A deviate is named by the     *)
(* generator whose seed it belongs to and its position in the stream.            *)
(* Saved = "shared" models generators with a common second deviate.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps, Saved
VARIABLES objs, cell, script, ok
vars == <<objs, cell, script, ok>>

New(o) == [origin |-> o, count |-> 0, pending |-> FALSE, saved |-> <<>>]
Init == /\ objs = [h \in {"A", "B"} |-> New(h)]
        /\ cell = <<>> /\ script = <<>> /\ ok = TRUE

Second(h) == IF Saved = "shared" THEN cell ELSE objs[h].saved
Draw(h) ==
  LET g == objs[h]
      y == IF g.pending THEN Second(h) ELSE <<g.origin, g.count + 1>>
      z == IF g.pending THEN <<>> ELSE <<g.origin, g.count + 2>>
  IN /\ ok' = (ok /\ y = <<g.origin, g.count + 1>>)
     /\ objs' = [objs EXCEPT ![h] = [g EXCEPT !.count = @ + 1, !.pending = ~@, !.saved = z]]
     /\ cell' = IF g.pending THEN cell ELSE z
     /\ script' = Append(script, "draw" \o h)
Copy(h, k) ==
  /\ objs' = [n \in DOMAIN objs \cup {k} |-> IF n = k THEN objs[h] ELSE objs[n]]
  /\ script' = Append(script, "copy" \o h \o k)
  /\ UNCHANGED <<cell, ok>>
Next == /\ Len(script) < Steps
        /\ \/ \E h \in DOMAIN objs : Draw(h)
           \/ "C" \notin DOMAIN objs /\ \E h \in DOMAIN objs : Copy(h, "C")
Spec == Init /\ [][Next]_vars

\* every deviate is the next one of the stream of its own seed
Own == ok
Emit == Len(script) = Steps => PrintT(<<"CASE", ToJson(script)>>)
===============================================================================
