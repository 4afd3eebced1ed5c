---------------------------- MODULE IntegratorModel ----------------------------
(* The rules are exact for polynomials up to their degree; adaptive refinement   *)
(* as a state machine: any choice of a part with the largest error keeps a        *)
(* partition of the domain, decreases nothing but the bisected part, and for a    *)
(* polynomial keeps the exact result.  Dyadic model: parts are (level, position). *)
EXTENDS Integrator, FiniteSetsExt
CONSTANTS Refinements, Errors

\* the integral of x^k from -1 to 1
Exact(k) == IF k % 2 = 1 THEN R(0) ELSE R(2) \oslash R(k + 1)
ASSUME \A rule \in Rules : \A k \in 0 .. Degree(rule) :
         LET F(x) == [i \in 1 .. Len(x) |-> IF k = 0 THEN R(1) ELSE RPow(x[i], R(k))]
         IN RClose(Rule(rule, F, R(-1), R(1)), Exact(k), R(0), R("1e-14"))
\* and not beyond (the even degree that follows)
ASSUME \A rule \in Rules :
         LET k == Degree(rule) + 1
             F(x) == [i \in 1 .. Len(x) |-> RPow(x[i], R(k))]
         IN ~RClose(Rule(rule, F, R(-1), R(1)), Exact(k), R(0), R("1e-14"))

\* Parts as dyadic intervals with errors assigned by an arbitrary (adversarial) function of the part
VARIABLES parts, n, stopped
vars == <<parts, n, stopped>>

Sum(S) == FoldSet(LAMBDA p, a : a + p.err, 0, S)
Units(p) == 2 ^ (Refinements - p.level)
Init == parts \in {{[level |-> 0, pos |-> 0, err |-> e]} : e \in Errors} /\ n = 0 /\ stopped = FALSE
Refine ==
  /\ ~stopped /\ n < Refinements /\ Sum(parts) >= 1
  /\ \E p \in parts :
       /\ \A r \in parts : r.err <= p.err
       /\ \E e1, e2 \in Errors :
            parts' = (parts \ {p}) \cup {[level |-> p.level + 1, pos |-> 2 * p.pos, err |-> e1], [level |-> p.level + 1, pos |-> 2 * p.pos + 1, err |-> e2]}
  /\ n' = n + 1 /\ UNCHANGED stopped
Stop == ~stopped /\ (n = Refinements \/ Sum(parts) < 1) /\ stopped' = TRUE /\ UNCHANGED <<parts, n>>
Next == Refine \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Partition ==
  /\ Cardinality(parts) = n + 1
  /\ FoldSet(LAMBDA p, a : a + Units(p), 0, parts) = 2 ^ Refinements
  /\ \A p, r \in parts : p # r => LET a == p.pos * Units(p)
                                      b == r.pos * Units(r)
                                  IN a + Units(p) <= b \/ b + Units(r) <= a
Stops == stopped => (n = Refinements \/ Sum(parts) < 1)
Terminates == <>stopped
===============================================================================
