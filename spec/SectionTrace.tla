----------------------------- MODULE SectionTrace -----------------------------
(* Records of operations on a section: reading, masking, writing, computing the *)
(* absorption and the cost.  Aspects: "reading", "masking", "cost",             *)
(* "convolution" select the clauses to be checked.                              *)
(* A record whose case has the field rel repeats the operations of the latest   *)
(* record without that field, with altered flux and uncertainty at masked data. *)
EXTENDS Sections, Json, IOUtils

CONSTANT Aspects

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,        \* record
          k,        \* step
          S,        \* the section
          in,       \* the input: [lines, next, dead]
          F,        \* the fit or None
          ref       \* the number of the record to which related ones refer
vars == <<l, k, S, in, F, ref>>

Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, k, name, info>>) /\ FALSE
Aspect(a, p) == a \in Aspects => p

None == [none |-> TRUE]
Empty == Section(<<>>)
Huge == R("1.7976931348623157e308")

Near(a, b) == RClose(R(a), b, R("2e-8"), R("1e-13"))
Digits(v) == RSci(v, 8)
Bit(b) == IF b THEN "1" ELSE "0"

Outline(s, o) ==
  /\ Aspect("reading",
       /\ Clause("number of data", o.n = s.n, <<o, s.n>>)
       /\ Clause("bounds", REq(R(o.lower), Lower(s)) /\ REq(R(o.upper), Upper(s)), o)
       /\ Clause("center and width", RClose(R(o.center), Center(s), R("1e-14"), R(0)) /\ RClose(R(o.width), Width(s), R("1e-12"), R("1e-14")), o))
  /\ Aspect("masking", Clause("number of valid data", o.valid = Cardinality(Valid(s)), <<o, Cardinality(Valid(s))>>))

\* the data columns of rows, as written, for the data with numbers is
Data(s, rows, is) ==
  /\ Clause("one row per datum", Len(rows) = Len(is), Len(rows))
  /\ \E ok \in {\A j \in 1 .. Len(is) : \* evaluated at once, not as part of the action
       LET r == rows[j]
           i == is[j]
       IN /\ Clause("columns", Len(r) = 13, r)
          /\ Aspect("reading", Clause("wavelength, flux and uncertainty",
                 r[1] = Digits(s.wav[i]) /\ r[2] = Digits(s.flx[i]) /\ r[3] = Digits(s.unc[i]), r))
          /\ "reading" \in Aspects \/ "masking" \in Aspects => Clause("mask", r[4] = Bit(s.msk[i]), r)} : ok

Indices(s, a, b) == SelectSeq([i \in 1 .. s.n |-> i], LAMBDA i : a \preceq s.wav[i] /\ s.wav[i] \preceq b)
All(s) == [i \in 1 .. s.n |-> i]

\* the columns are consistent with each other
Consistent(r) ==
  /\ Near(r[9], R(r[8]) \otimes R(r[6]))
  /\ Near(r[10], R(r[8]) \otimes R(r[7]))
  /\ ~REq(R(r[8]), R(0)) => Near(r[12], R(r[2]) \oslash R(r[8])) /\ Near(r[13], R(r[3]) \oslash R(r[8]))
  /\ RClose(R(r[6]), RExp(RNeg(R(r[5]))), R("2e-8") \otimes (R(1) \oplus RAbs(R(r[5]))), R("1e-300"))

\* the normal equations are solved accurately
Determined(f) == f.good

Applied(s, f, rows, is) ==
  \A j \in 1 .. Len(is) :
    LET r == rows[j]
        i == is[j]
    IN /\ Aspect("reading", Clause("consistent columns", Consistent(r), r))
       /\ Aspect("convolution",
            /\ Clause("optical depth", Near(r[5], f.opt[i]), <<r, RStr(f.opt[i])>>)
            /\ Clause("transmission", Near(r[6], f.atm[i]), <<r, RStr(f.atm[i])>>)
            /\ Clause("absorption term", Near(r[7], f.cat[i]), <<r, RStr(f.cat[i])>>))
       /\ Aspect("cost", Determined(f) =>
            /\ Clause("continuum", RClose(R(r[8]), f.cfl[i], R("3e-8"), R("1e-13")), <<r, RStr(f.cfl[i])>>)
            /\ Clause("fitted flux", RClose(R(r[10]), f.fit[i], R("3e-8"), R("1e-13")), <<r, RStr(f.fit[i])>>)
            /\ Clause("residual", ~RIsFinite(f.res[i]) \/ RClose(R(r[11]), f.res[i], R("3e-8"), R("1e-9") \otimes (R(1) \oplus RAbs(s.flx[i] \oslash s.unc[i]))), <<r, RStr(f.res[i])>>))

FitOf(s, q) ==
  LET d == q.tau
  IN TLCEval(Fit(s, q.m, R(q.r), LAMBDA x :
       LET z == TLCEval([i \in 1 .. Len(x) |-> R(d.a0) \oplus (R(d.a1) \otimes x[i])])
       IN FoldLeft(LAMBDA acc, c :
            LET y == TLCEval([i \in 1 .. Len(x) |-> RNeg(RSq((x[i] \ominus R(c[2])) \oslash R(c[3])))])
            IN TLCEval(VAdd(acc, VScale(R(c[1]), VExp(y)))), z, d.g)))

Solvable(s, q) == q.m = 0 \/ Cardinality(Valid(s)) >= q.m
CostIs(c, s, f) ==
  LET e == TLCEval(Cost(s, f))
  IN Determined(f) => Clause("cost", RClose(R(c), e, R("1e-8"), R("1e-9")), <<c, RStr(e)>>)
HalfSquares(rows) ==
  LET q == SelectSeq(rows, LAMBDA r : r[4] = "1")
      v == TLCEval([j \in 1 .. Len(q) |-> R(q[j][11])])
  IN R("0.5") \otimes VDot(v, v)

(***************************************************************************)
(* Steps: q is what was asked for, o what was observed.                    *)
(***************************************************************************)
Same == UNCHANGED <<S, in, F>>

Text_(q, o) == in' = [lines |-> q.lines, next |-> 1, dead |-> FALSE, bad |-> FALSE] /\ UNCHANGED <<S, F>>

Get(q, o) ==
  LET a == IF "a" \in DOMAIN q THEN R(q.a) ELSE R(0)
      b == IF "b" \in DOMAIN q THEN R(q.b) ELSE Huge
      g == IF in.dead THEN [ok |-> FALSE, malformed |-> in.bad, next |-> in.next, rows |-> <<>>] ELSE TLCEval(Read(in.lines, in.next, a, b))
      s == IF g.ok THEN Section(g.rows) ELSE S
  IN /\ Aspect("reading", Clause("success", o.failed = ~g.ok, <<o, g>>) /\ Clause("malformed", o.bad = g.malformed, o))
     /\ Outline(s, o.s)
     /\ g.ok => Data(s, o.rows, All(s))
     /\ S' = s
     /\ in' = [in EXCEPT !.next = g.next, !.dead = ~g.ok, !.bad = g.malformed]
     /\ F' = IF g.ok THEN None ELSE F

Arrays(q, o) ==
  LET s == Section([i \in 1 .. Len(q.x) |-> [wav |-> R(q.x[i]), flx |-> R(q.y[i]), unc |-> R(q.u[i]), msk |-> TRUE]])
  IN Outline(s, o.s) /\ S' = s /\ F' = None /\ UNCHANGED in

Mask_(q, o) ==
  LET s == Mask(S, R(q.a), R(q.b))
  IN Outline(s, o.s) /\ Data(s, o.rows, All(s)) /\ S' = s /\ F' = [stale |-> TRUE] @@ F /\ UNCHANGED in

Apply(q, o) ==
  IF ~Solvable(S, q)
  THEN (Valid(S) = {} => Aspect("cost", Clause("singular equations are an error", o.error # "", o))) /\ F' = None /\ UNCHANGED <<S, in>>
  ELSE \E f \in {FitOf(S, q)} :
         /\ Determined(f) => Clause("no error", o.error = "", o)
         /\ o.error = "" =>
              /\ Outline(S, o.s) /\ Data(S, o.rows, All(S)) /\ Applied(S, f, o.rows, All(S))
              /\ Aspect("cost", CostIs(o.cost, S, f))
              /\ Aspect("masking", Clause("cost is half the sum of squares over valid data", RClose(R(o.cost), HalfSquares(o.rows), R("1e-7"), R("1e-12")), o.cost))
         /\ F' = (IF o.error = "" THEN [f |-> f, q |-> q, cost |-> o.cost] ELSE None) /\ UNCHANGED <<S, in>>

Cost_(q, o) ==
  IF ~Solvable(S, q)
  THEN (Valid(S) = {} => Aspect("cost", Clause("singular equations are an error", o.error # "", o))) /\ Same
  ELSE LET known == "q" \in DOMAIN F /\ "stale" \notin DOMAIN F /\ F.q.tau = q.tau /\ F.q.m = q.m /\ F.q.r = q.r
       IN \E f \in {IF known THEN F.f ELSE FitOf(S, q)} :
         /\ Determined(f) => Clause("no error", o.error = "", o)
         /\ o.error = "" => Aspect("cost",
              /\ CostIs(o.cost, S, f)
              /\ Clause("computing the cost changes nothing", o.unchanged, o)
              /\ known => Clause("same cost reported afterwards", RClose(R(o.cost), R(F.cost), R("1e-11"), R("1e-14")), <<o.cost, F.cost>>))
         /\ Same

Put(q, o) ==
  LET is == IF "a" \in DOMAIN q THEN Indices(S, R(q.a), R(q.b)) ELSE All(S)
  IN /\ Data(S, o.rows, is)
     /\ "f" \in DOMAIN F => Applied(S, F.f, o.rows, is)
     /\ Same

\* all sections that can be read one after another
RECURSIVE ReadAll(_, _)
ReadAll(lines, from) ==
  LET g == TLCEval(Read(lines, from, R(0), Huge))
  IN IF from > Len(lines) \/ ~g.ok THEN [secs |-> <<>>, bad |-> from <= Len(lines) /\ g.malformed]
     ELSE LET rest == ReadAll(lines, g.next) IN [secs |-> <<Section(g.rows)>> \o rest.secs, bad |-> rest.bad]

Blocks(blocks, secs) ==
  /\ Clause("sections", Len(blocks) = Len(secs), <<Len(blocks), Len(secs)>>)
  /\ \A j \in 1 .. Len(secs) : Data(secs[j], blocks[j], All(secs[j]))

AllOf(q, o) ==
  LET g == TLCEval(ReadAll(in.lines, in.next))
  IN /\ Aspect("reading",
          /\ Clause("number of sections", o.count = Len(g.secs) /\ o.bad = g.bad, <<o.count, Len(g.secs), o.bad, g.bad>>)
          /\ Clause("number of sections when read again", o.again = o.count, o.again))
     /\ Blocks(o.blocks, g.secs)
     /\ Blocks(o.blocks2, g.secs)
     /\ in' = [in EXCEPT !.dead = TRUE, !.bad = g.bad] /\ UNCHANGED <<S, F>>

Step(q, o) ==
  CASE q.do = "text" -> Text_(q, o)
    [] q.do = "get" -> Get(q, o)
    [] q.do = "arrays" -> Arrays(q, o)
    [] q.do = "mask" -> Mask_(q, o)
    [] q.do = "apply" -> Apply(q, o)
    [] q.do = "cost" -> Cost_(q, o)
    [] q.do = "put" -> Put(q, o)
    [] q.do = "all" -> AllOf(q, o)

(***************************************************************************)
(* Altered masked data                                                     *)
(***************************************************************************)
SameRow(a, b) ==
  /\ \A j \in {1, 4, 5, 6, 7, 8, 9, 10} : RClose(R(a[j]), R(b[j]), R("1e-12"), R("1e-300"))
  /\ a[4] = "1" => a = b

Unaffected(a, b) ==
  \A j \in 1 .. Len(a.out) :
    LET p == a.out[j]
        q == b.out[j]
    IN /\ "s" \in DOMAIN p => Clause("unaffected outline", p.s = q.s, <<p.s, q.s>>)
       /\ "cost" \in DOMAIN p => Clause("unaffected cost", RClose(R(p.cost), R(q.cost), R("1e-12"), R("1e-300")), <<p.cost, q.cost>>)
       /\ Clause("unaffected outcome", p.error = q.error, q.error)
       /\ p.do \in {"apply", "put"} =>
            Clause("unaffected number of rows", Len(p.rows) = Len(q.rows), q) /\
            \A i \in 1 .. Len(p.rows) : Clause("unaffected data", SameRow(p.rows[i], q.rows[i]), <<p.rows[i], q.rows[i]>>)

\* the same masks in another order
Reordered(a, b) ==
  LET p == a.out[Len(a.out)]
      q == b.out[Len(b.out)]
  IN Clause("order of masks", p.s = q.s /\ p.rows = q.rows, <<p.s, q.s>>)

Related(a, b) ==
  Aspect("masking", IF b.case.rel = "masked" THEN Unaffected(a, b) ELSE Reordered(a, b))

Fresh == k' = 1 /\ S' = Empty /\ in' = [lines |-> <<>>, next |-> 1, dead |-> TRUE, bad |-> FALSE] /\ F' = None

Init == l = 1 /\ k = 1 /\ S = Empty /\ in = [lines |-> <<>>, next |-> 1, dead |-> TRUE, bad |-> FALSE] /\ F = None /\ ref = 0
Next ==
  \/ /\ l <= Len(Trace) /\ k <= Len(Trace[l].out)
     /\ Step(Trace[l].case.steps[k], Trace[l].out[k])
     /\ k' = k + 1 /\ UNCHANGED <<l, ref>>
  \/ /\ l <= Len(Trace) /\ k = Len(Trace[l].out) + 1
     /\ IF "rel" \in DOMAIN Trace[l].case THEN Related(Trace[ref], Trace[l]) /\ UNCHANGED ref ELSE ref' = l
     /\ l' = l + 1 /\ Fresh
  \/ l = Len(Trace) + 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
===============================================================================
