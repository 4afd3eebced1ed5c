------------------------------ MODULE PolarModel ------------------------------
(* The generator as a state machine: it draws pairs until one is accepted, hands *)
(* out the first deviate, and the second at the next call.  Checked against the  *)
(* deviates of the whole stream; also the generator of streams for replay.       *)
EXTENDS Polar, Json
CONSTANTS Pairs, Values

U == {"0", "0.25", "0.5", "0.8125", "1"}
Points == U \X U
VARIABLES stream, rest, saved, out
vars == <<stream, rest, saved, out>>

\* TLC enumerates all streams of the given number of pairs
Init == /\ stream \in [1 .. Pairs -> (IF Values = "all" THEN Points ELSE {<<"0.25", "0.8125">>, <<"0.8125", "0.5">>, <<"0.5", "0.5">>, <<"1", "0.5">>, <<"0", "1">>})]
        /\ rest = stream /\ saved = <<>> /\ out = <<>>

Call ==
  IF saved # <<>> THEN out' = Append(out, saved[1]) /\ saved' = <<>> /\ UNCHANGED rest
  ELSE /\ \E k \in 1 .. Len(rest) :
            /\ \A j \in 1 .. k - 1 : ~Accepted(Square(R(rest[j][1]), R(rest[j][2])))
            /\ Accepted(Square(R(rest[k][1]), R(rest[k][2])))
            /\ LET d == Deviates(Square(R(rest[k][1]), R(rest[k][2])))
               IN out' = Append(out, d[1]) /\ saved' = <<d[2]>>
            /\ rest' = SubSeq(rest, k + 1, Len(rest))
Next == Call /\ UNCHANGED stream
Spec == Init /\ [][Next]_vars

Flat == [i \in 1 .. 2 * Pairs |-> R(stream[(i + 1) \div 2][2 - (i % 2)])]
Prefix == LET n == Normal(Flat) IN Len(out) <= Len(n) /\ \A i \in 1 .. Len(out) : out[i] = n[i]
Complete == (~ENABLED Call) => Len(out) = Len(Normal(Flat))
Emit == out = <<>> => PrintT(<<"CASE", ToJson(stream)>>)
===============================================================================
