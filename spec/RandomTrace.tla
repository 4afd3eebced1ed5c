----------------------------- MODULE RandomTrace -----------------------------
(* Recorded streams: generators named by handles are created, copied and called. *)
EXTENDS Random, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, gens
vars == <<l, gens>>
Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE

RECURSIVE Agrees(_, _, _)
\* the state after the n-th remaining words, or "differs"
Agrees(g, ws, k) ==
  IF k > Len(ws) THEN [ok |-> TRUE, g |-> g]
  ELSE LET r == TLCEval(Rand(g)) IN IF WEq(r[1], W(ws[k])) THEN Agrees(r[2], ws, k + 1) ELSE [ok |-> FALSE, at |-> k, want |-> WStr(r[1])]

RECURSIVE AgreesU(_, _, _)
AgreesU(g, us, k) ==
  IF k > Len(us) THEN [ok |-> TRUE, g |-> g]
  ELSE LET r == TLCEval(Rand(g))
           u == R(us[k])
       IN IF RClose(u, Uniform(g.gen, r[1]), R("1e-15"), R(0)) /\ R(0) \preceq u /\ u \preceq R(1) THEN AgreesU(r[2], us, k + 1)
          ELSE [ok |-> FALSE, at |-> k, want |-> RStr(Uniform(g.gen, r[1]))]

New(r) ==
  CASE r.by = "keys" -> FromKeys(r.gen, r.keys)
    [] r.by = "seed" -> FromSeed(r.gen, r.keys[1])
    [] r.by = "pcg" -> FromPcg(W(r.keys[1]), W(r.keys[2]))
    [] r.by = "default" -> FromSeed(r.gen, DefaultSeed)

Put(h, g) == [k \in DOMAIN gens \cup {h} |-> IF k = h THEN g ELSE gens[k]]

Step(r) ==
  CASE r.e = "start" -> gens' = << >>
    [] r.e = "new" -> gens' = Put(r.h, TLCEval(New(r)))
    [] r.e = "copy" -> gens' = Put(r.h, gens[r.from])
    [] r.e = "rand" -> \E a \in {Agrees(gens[r.h], r.w, 1)} : Clause("published sequence", a.ok, a) /\ gens' = Put(r.h, a.g)
    [] r.e = "uni" -> \E a \in {AgreesU(gens[r.h], r.y, 1)} : Clause("uniform deviates", a.ok, a) /\ gens' = Put(r.h, a.g)

Init == l = 1 /\ gens = << >>
Next ==
  \/ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
===============================================================================
