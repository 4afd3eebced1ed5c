---------------------------- MODULE BuilderModel ----------------------------
(* The optimizer configuration as a state machine: every configuration call    *)
(* is an action on the settings.  The derived strategy parameters are a        *)
(* function of the final problem dimension and parent number alone, hence the  *)
(* state has no other component.  With Gen set, TLC enumerates call sequences  *)
(* as test cases.                                                              *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, Gen

Default == [n |-> 10, mu |-> 20, lambda |-> 40, mod |-> 1, acc |-> "1.0E-6", stop |-> 1000, seed |-> "9600629759793949339"]
\* a new builder has its own seed
Fresh == [Default EXCEPT !.seed = "271828"]

\* one call; numerals are strings in calls
Numerals == TLCEval([s \in {ToString(i) : i \in 0 .. 50} |-> CHOOSE i \in 0 .. 50 : ToString(i) = s])
Num(s) == Numerals[s]

Apply(S, f, v) ==
  CASE f = "n"        -> [S EXCEPT !.n = IF v = "default" THEN Default.n ELSE Num(v)]
    [] f = "mu"       -> IF v = "0" THEN S
                         ELSE LET m == IF v = "default" THEN Default.mu ELSE Num(v)
                              IN [S EXCEPT !.mu = m, !.lambda = 2 * m]
    [] f = "lambda"   -> [S EXCEPT !.lambda = Num(v)]
    [] f = "mod"      -> [S EXCEPT !.mod = IF v = "default" THEN Default.mod ELSE Num(v)]
    [] f = "acc"      -> [S EXCEPT !.acc = IF v = "default" THEN Default.acc ELSE v]
    [] f = "seed"     -> [S EXCEPT !.seed = IF v = "default" THEN Default.seed ELSE v]
    [] f = "stop"     -> [S EXCEPT !.stop = IF v = "default" THEN Default.stop ELSE Num(v)]
    [] f = "defaults" -> Default
    [] f = "build"    -> S

\* is the call refused?
Refused(S, f, v) ==
  \/ f = "mu" /\ v = "0"
  \/ f = "build" /\ S.lambda <= S.mu

Calls == {<<"n", v>> : v \in {"default", "1", "2", "7", "10"}}
    \cup {<<"mu", v>> : v \in {"default", "0", "1", "2", "5", "20"}}
    \cup {<<"lambda", v>> : v \in {"0", "1", "2", "5", "13", "40"}}
    \cup {<<"mod", v>> : v \in {"default", "3"}}
    \cup {<<"acc", v>> : v \in {"default", "0.001"}}
    \cup {<<"seed", v>> : v \in {"default", "42"}}
    \cup {<<"stop", v>> : v \in {"default", "0", "17"}}
    \cup {<<"defaults", "">>, <<"build", "">>}

VARIABLES settings, calls
vars == <<settings, calls>>

Init == settings = Fresh /\ calls = <<>>

Next ==
  /\ Len(calls) < Depth
  /\ \E k \in Calls :
       /\ settings' = Apply(settings, k[1], k[2])
       /\ calls' = Append(calls, k)
       /\ Gen => PrintT(<<"CASE", ToJson([op |-> "builder", calls |-> calls'])>>)

Spec == Init /\ [][Next]_vars

\* the parents never vanish, defaults restore everything, the last setting of each kind wins
Parents == settings.mu >= 1
LastWins ==
  \A f \in {"n", "mod", "acc", "seed", "stop"} :
    LET m == {i \in 1 .. Len(calls) : calls[i][1] \in {f, "defaults"}}
    IN m # {} => LET i == CHOOSE i \in m : \A j \in m : j <= i
                     v == calls[i][2]
                     w == IF calls[i][1] = "defaults" \/ v = "default" THEN Default[f]
                          ELSE IF f \in {"acc", "seed"} THEN v ELSE Num(v)
                 IN settings[f] = w
=============================================================================
