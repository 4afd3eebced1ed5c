------------------------------ MODULE EigenCases ------------------------------
(* Generates histories of decompositions with one object: all symmetric matrices *)
(* of dimension N with entries in Entries, given by one triangle, and all        *)
(* sequences of Length matrices (of the kinds in Kinds for longer histories).    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Entries, Length

Triangle == (N * (N + 1)) \div 2
Matrices == [1 .. Triangle -> Entries]
VARIABLE history
Init == history = <<>>
Next == Len(history) < Length /\ \E A \in Matrices : history' = Append(history, A)
Spec == Init /\ [][Next]_history
Emit == Len(history) = Length => PrintT(<<"CASE", ToJson(history)>>)
===============================================================================
