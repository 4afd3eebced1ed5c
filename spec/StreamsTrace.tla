----------------------------- MODULE StreamsTrace -----------------------------
(* Recorded normal generators, named by handles: created from a seed or from a   *)
(* uniform generator, copied and called in turn.                                 *)
EXTENDS Polar, Json, IOUtils, Random

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, objs
vars == <<l, objs>>
Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE

\* a normal generator: its uniform generator and the deviate in stock
RECURSIVE Pair(_)
Pair(g) ==
  LET r == TLCEval(Rand(g))
      s == TLCEval(Rand(r[2]))
      p == TLCEval(Square(Uniform(g.gen, r[1]), Uniform(g.gen, s[1])))
  IN IF Accepted(p) THEN <<TLCEval(Deviates(p)), s[2]>> ELSE Pair(s[2])

RECURSIVE Agrees(_, _, _)
Agrees(o, ys, k) ==
  IF k > Len(ys) THEN [ok |-> TRUE, o |-> o]
  ELSE LET p == IF o.stock = <<>> THEN TLCEval(Pair(o.g)) ELSE <<o.stock, o.g>>
           want == p[1][1]
       IN IF RClose(R(ys[k]), want, R("1e-11"), R("1e-12")) THEN Agrees([g |-> p[2], stock |-> Tail(p[1])], ys, k + 1)
          ELSE [ok |-> FALSE, at |-> k, is |-> ys[k], want |-> RStr(want)]

RECURSIVE Skip(_, _)
Skip(g, n) == IF n = 0 THEN g ELSE LET r == TLCEval(Rand(g)) IN Skip(r[2], n - 1)

Put(h, o) == [k \in DOMAIN objs \cup {h} |-> IF k = h THEN o ELSE objs[k]]

Step(r) ==
  CASE r.e = "start" -> objs' = << >>
    [] r.e = "new" -> objs' = Put(r.h, [g |-> TLCEval(Skip(FromSeed(r.gen, r.seed), r.skip)), stock |-> <<>>])
    [] r.e = "copy" -> objs' = Put(r.h, objs[r.from])
    [] r.e = "draw" -> \E a \in {Agrees(objs[r.h], r.y, 1)} : Clause("deviates of the own stream", a.ok, a) /\ objs' = Put(r.h, a.o)

Init == l = 1 /\ objs = << >>
Next ==
  \/ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
===============================================================================
