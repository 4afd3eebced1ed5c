------------------------------ MODULE FullTrace ------------------------------
(* The complete meaning of a model definition: from text, data files and a      *)
(* parameter vector to the fitted data, the cost and the result tables.         *)
(* Aspects: "cost" the cost of the parameter vector, "data" the fitted data,    *)
(* "table" the tables, "adds" tables and fitted data agree with each other and  *)
(* with the fitness.                                                            *)
EXTENDS ModelDef, Json, IOUtils, SequencesExt

CONSTANT Aspects

S == INSTANCE Sections
P == INSTANCE Profiles

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE
Aspect(a, p) == a \in Aspects => p

(***************************************************************************)
(* Data and parameters of section s                                        *)
(***************************************************************************)
RECURSIVE Masked(_, _)
Masked(sec, ms) == IF ms = <<>> THEN sec ELSE Masked(TLCEval(S!Mask(sec, ms[1][1], ms[1][2])), Tail(ms))

Data(sec, file) ==
  LET is == SelectSeq([i \in 1 .. Len(file.wav) |-> i], LAMBDA i : sec.a \preceq R(file.wav[i]) /\ R(file.wav[i]) \preceq sec.b)
  IN Masked(S!Section([k \in 1 .. Len(is) |-> [wav |-> R(file.wav[is[k]]), flx |-> R(file.flx[is[k]]), unc |-> R(file.unc[is[k]]), msk |-> TRUE]]),
            sec.masks)

\* the number of the first parameter of section s, and of the first parameter of its q-th line
First(M, s, m) == 1 + FoldLeft(LAMBDA a, k : a + 1 + (m * Len(M.secs[k].lines)), 0, [k \in 1 .. s - 1 |-> k])
LineFirst(M, s, q, m) == First(M, s, m) + 1 + ((q - 1) * m)

LineParams(M, x, s, q, m) == TLCEval([k \in 1 .. m |-> Value(M, x, LineFirst(M, s, q, m) + k - 1)])

\* [sec: the section's data, fit: the fitted columns, lines]
Fitted(M, x, s, fn, files) ==
  LET m == P!Count(fn)
      d == M.secs[s]
      sec == Data(d, files[d.file])
      Ls == TLCEval([q \in 1 .. Len(d.lines) |-> P!Line(fn, LineParams(M, x, s, q, m))])
      leg == CHOOSE k \in 0 .. 20 : ToString(k) = d.legendre
      f == S!Fit(sec, leg, Value(M, x, First(M, s, m)), LAMBDA w : P!Total(Ls, w))
  IN TLCEval([sec |-> sec, fit |-> f, cost |-> S!Cost(sec, f), lines |-> Ls])

(***************************************************************************)
(* The written result                                                      *)
(***************************************************************************)
Near(a, b, rtol, atol) == RClose(R(a), b, R(rtol), R(atol))

\* fitted data of a section: rows of 13 columns
RowsOk(F, rows) ==
  /\ Clause("one row per datum", Len(rows) = F.sec.n, Len(rows))
  /\ \A i \in 1 .. F.sec.n :
       LET r == rows[i]
       IN /\ Clause("data columns", r[1] = RSci(F.sec.wav[i], 8) /\ r[2] = RSci(F.sec.flx[i], 8) /\ r[3] = RSci(F.sec.unc[i], 8), r)
          /\ Clause("mask column", r[4] = (IF F.sec.msk[i] THEN "1" ELSE "0"), r)
          /\ Clause("optical depth column", Near(r[5], F.fit.opt[i], "1e-7", "1e-9"), <<r, RStr(F.fit.opt[i])>>)
          /\ Clause("absorption column", Near(r[7], F.fit.cat[i], "1e-7", "1e-9"), <<r, RStr(F.fit.cat[i])>>)
          /\ F.fit.good => Clause("continuum column", Near(r[8], F.fit.cfl[i], "1e-6", "1e-9"), <<r, RStr(F.fit.cfl[i])>>)

\* a cell shows the value v with p decimals
Shows(cell, v, p, rtol) == IsNumber(cell) /\ RClose(R(cell), v, R(rtol), R(CASE p = 2 -> "0.00501" [] p = 3 -> "0.000501" [] p = 4 -> "0.0000501"))

Count(rows) == Cardinality({i \in 1 .. Len(rows) : rows[i][4] = "1"})
HalfSquares(rows) ==
  LET q == SelectSeq(rows, LAMBDA r : r[4] = "1")
      v == TLCEval([j \in 1 .. Len(q) |-> R(q[j][11])])
  IN R("0.5") \otimes VDot(v, v)

\* the rows of a table and the fitted data of the same result (data in the order of definition)
SectionCells(M, t) ==
  /\ Clause("every section once", Len(t.sections) = Len(M.secs) /\ Len(t.data) = Len(M.secs), t.sections)
  /\ \A k \in 1 .. Len(t.sections) :
       LET c == t.sections[k]
           S1 == {s \in 1 .. Len(M.secs) : M.secs[s].id = c[1]}
       IN /\ Clause("name of a section", S1 # {} /\ Len(c) = 8, c)
          /\ LET rows == t.data[CHOOSE s \in S1 : TRUE]
                 n == Count(rows)
                 cost == HalfSquares(rows)
             IN /\ Clause("wavelength range", Shows(c[2], R(rows[1][1]), 2, "1e-8") /\ Shows(c[3], R(rows[Len(rows)][1]), 2, "1e-8"), <<c, rows[1], rows[Len(rows)]>>)
                /\ Clause("number of valid data", c[6] = ToString(n), <<c, n>>)
                /\ Clause("cost of a section", Shows(c[7], cost, 2, "1e-6"), <<c, RStr(cost)>>)
                /\ n > 0 => Clause("cost per datum", Shows(c[8], cost \oslash R(n), 2, "1e-6"), <<c, RStr(cost)>>)

Costs(M, t) == VSum([s \in 1 .. Len(M.secs) |-> HalfSquares(t.data[s])])

\* observed wavelength and equivalent width
LineCells(M, Fs, x, u, fn, t) ==
  LET m == P!Count(fn)
      SQ == {<<s, q>> \in (1 .. Len(M.secs)) \X (1 .. 40) : q <= Len(M.secs[s].lines)}
  IN /\ Clause("every line once", Len(t.lines) = Cardinality(SQ), t.lines)
     /\ \A k \in 1 .. Len(t.lines) :
       LET c == t.lines[k]
           W == {p \in SQ : M.secs[p[1]].lines[p[2]].id = c[1]}
       IN /\ Clause("name of a line", W # {}, c)
          /\ LET p == CHOOSE p \in W : TRUE
                 i == LineFirst(M, p[1], p[2], m)
                 v(j) == Value(M, x, i + j - 1)
                 d(j) == IF Index(M, i + j - 1) > 0 THEN u[Index(M, i + j - 1)] ELSE R(0)
                 fz == R(1) \oplus v(3)
                 fv == R(1) \oplus (v(4) \oslash P!LightKm)
                 w == v(1) \otimes (fz \otimes fv)
                 dw == d(1) \oplus (v(1) \otimes RSqrt(RSq(fv \otimes d(3)) \oplus RSq(fz \otimes (d(4) \oslash P!LightKm))))
                 obs == t.observed[k]
             IN /\ Clause("observed wavelength", Shows(obs[1], w, 4, "1e-12"), <<c, RStr(w)>>)
                /\ Clause("uncertainty of the observed wavelength", Len(obs) = 2 /\ Shows(obs[2], dw, 4, "1e-10"), <<c, RStr(dw)>>)
                /\ Clause("equivalent width", P!WidthOk(R(c[9]), Fs[p[1]].lines[p[2]], R("1e-3"), R("0.000501")), <<c, RStr(P!EquivalentWidth(Fs[p[1]].lines[p[2]], R("1e-3")))>>)

TableOk(M, r, k) ==
  LET t == r.parsed[k]
      x == TLCEval(V(t.x))
      u == TLCEval(V(t.u))
      fn == r.case.fn
      needed == "cost" \in Aspects \/ "data" \in Aspects \/ "table" \in Aspects
      Fs == IF needed THEN TLCEval([s \in 1 .. Len(M.secs) |-> Fitted(M, x, s, fn, r.case.files)]) ELSE <<>>
      good == needed /\ \A s \in 1 .. Len(M.secs) : Fs[s].fit.good
  IN /\ good => Clause("no error", t.error = "", t.error)
     /\ t.error = "" =>
        /\ Aspect("cost", good => LET c == VSum([s \in 1 .. Len(M.secs) |-> Fs[s].cost])
                                  IN Clause("cost", Near(t.y, c, "1e-7", "1e-9"), <<t.y, RStr(c)>>))
        /\ Aspect("data", \A s \in 1 .. Len(M.secs) : RowsOk(Fs[s], t.data[s]))
        /\ Aspect("table", LineCells(M, Fs, x, u, fn, t))
        /\ Aspect("adds", SectionCells(M, t) /\
             Clause("costs add up to the fitness", RClose(R(t.y), Costs(M, t), R("1e-6"), R("1e-9")), <<t.y, RStr(Costs(M, t))>>))

Ok(r) ==
  LET M == TLCEval(Meaning(r.case.text, P!Count(r.case.fn), r.case.files))
  IN /\ Clause("accepted", M.ok /\ r.error = "", r.error)
     /\ \A k \in 1 .. Len(r.parsed) : TableOk(M, r, k)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
