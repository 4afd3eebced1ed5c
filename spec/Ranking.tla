------------------------------- MODULE Ranking -------------------------------
(* Lemma behind C03, checked for all assignments of small costs: the set of     *)
(* parents and the underflow test depend on the order of the costs only.        *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Lambda, Mu, Values

Ind == 1 .. Lambda
VARIABLE y
Init == y \in [Ind -> Values]
Next == UNCHANGED y
Spec == Init /\ [][Next]_y

Parents(v, less(_, _)) ==
  {P \in SUBSET Ind : Cardinality(P) = Mu /\ \A p \in P, q \in Ind \ P : ~less(v[q], v[p])}
Increasing == {f \in [Values -> -12 .. 12] : \A a, b \in Values : a < b => f[a] < f[b]}
Maps == {[a \in Values |-> 2 * a - 5], [a \in Values |-> a * a * a], [a \in Values |-> a + (a \div 2)]}

Monotone ==
  \A f \in Maps :
     Parents(y, LAMBDA a, b : a < b) = Parents([k \in Ind |-> f[y[k]]], LAMBDA a, b : a < b)
Reversal ==
  Parents(y, LAMBDA a, b : a < b) = Parents([k \in Ind |-> -y[k]], LAMBDA a, b : a > b)
=============================================================================
