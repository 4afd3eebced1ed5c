------------------------------ MODULE ModelTrace ------------------------------
(* Records of parsed (or rejected) model definitions.                           *)
(* Aspects: "outcome" ill-formed definitions are rejected, others are not;      *)
(* "meaning" number, initial values, steps and bounds of the parameters, the    *)
(* values and uncertainties reported for given parameter vectors.               *)
EXTENDS ModelDef, Json, IOUtils

CONSTANT Aspects

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Clause(name, p, info) == p \/ (PrintT(<<"REJECTED", l, name, info>>) /\ FALSE)

ParamCount(fn) == CASE fn = "doppler" -> 6 [] fn \in {"voigt", "xvoigt"} -> 7 [] fn = "mm" -> 8

Same(a, b) == RClose(a, b, R("1e-14"), R("1e-300"))
AllSame(a, b) == VClose(a, b, R("1e-14"), R("1e-300"))

\* the text of a parameter in a table
Shown(M, x, u, i, f(_)) ==
  IF Index(M, i) > 0 THEN f(x[Index(M, i)]) \o " &plusmn; " \o f(u[Index(M, i)]) ELSE f(Value(M, x, i))

Fixed2(v) == RFixed(v, 2)
Fixed3(v) == RFixed(v, 3)
Fixed4(v) == RFixed(v, 4)
Fixed7(v) == RFixed(v, 7)
Sci3(v) == RSci(v, 3)

First(M, kind, id) == CHOOSE i \in 1 .. Len(M.all) : M.all[i].kind = kind /\ M.all[i].id = id /\ M.all[i].k <= 1

LineCells(M, x, u, id, m) ==
  LET i == First(M, "line", id)
  IN <<Shown(M, x, u, i, Fixed4), Shown(M, x, u, i + 1, Sci3), Shown(M, x, u, i + 2, Fixed7),
       Shown(M, x, u, i + 3, Fixed3), Shown(M, x, u, i + 4, Fixed3), Shown(M, x, u, i + 5, Fixed3)>>
     \o (IF m = 8 THEN <<Shown(M, x, u, i + 7, Fixed3)>> ELSE <<>>)

\* a parsed table: [sections: rows of cells, lines: rows of cells]
TableOk(M, t, m) ==
  LET x == TLCEval(V(t.x))
      u == TLCEval(V(t.u))
      sids == {M.secs[s].id : s \in 1 .. Len(M.secs)}
      lids == {M.all[i].id : i \in {j \in 1 .. Len(M.all) : M.all[j].kind = "line"}}
      cells(row) == SubSeq(row, 3, 8) \o (IF m = 8 THEN <<row[10]>> ELSE <<>>)
  IN /\ Clause("every section is listed once", Len(t.sections) = Cardinality(sids) /\ {r[1] : r \in Range(t.sections)} = sids, t.sections)
     /\ Clause("every line is listed once", Len(t.lines) = Cardinality(lids) /\ {r[1] : r \in Range(t.lines)} = lids, t.lines)
     /\ \A k \in 1 .. Len(t.sections) :
          LET s == CHOOSE s \in 1 .. Len(M.secs) : M.secs[s].id = t.sections[k][1]
          IN /\ Clause("resolution", t.sections[k][5] = Shown(M, x, u, First(M, "section", M.secs[s].id), Fixed2), t.sections[k])
             /\ Clause("number of polynomials", t.sections[k][4] = M.secs[s].legendre, t.sections[k])
     /\ \A k \in 1 .. Len(t.lines) :
          LET want == LineCells(M, x, u, t.lines[k][1], m)
          IN Clause("line parameters", Len(t.lines[k]) = (IF m = 8 THEN 10 ELSE 9) /\ cells(t.lines[k]) = want, <<t.lines[k], want>>)

OutcomeOk(M, r) ==
  /\ Clause("ill-formed definitions are rejected", ~M.ok => r.error # "", M)
  /\ Clause("well-formed definitions are accepted", M.ok => r.error = "", r.error)

MeaningOk(M, r, m) ==
  M.ok /\ r.error = "" =>
  LET n == Len(M.free)
      mid == [k \in 1 .. n |-> R("0.5") \otimes (M.lo[k] \oplus M.up[k])]
      half == [k \in 1 .. n |-> R("0.5") \otimes (M.up[k] \ominus M.lo[k])]
  IN /\ n > 0 =>
        /\ Clause("number of optimized parameters", r.count = n, <<r.count, n>>)
        /\ Clause("initial values", AllSame(V(r.x0), mid), <<r.x0, VStr(mid)>>)
        /\ Clause("initial steps", AllSame(V(r.d0), half), <<r.d0, VStr(half)>>)
        /\ "probes" \in DOMAIN r =>
             \A k \in 1 .. Len(r.probes) :
               Clause("bounds", r.probes[k].violated =
                        (\E i \in 1 .. n : R(r.probes[k].x[i]) \prec M.lo[i] \/ M.up[i] \prec R(r.probes[k].x[i])), r.probes[k])
     /\ "parsed" \in DOMAIN r =>
          \A k \in 1 .. Len(r.parsed) : Clause("no error", r.parsed[k].error = "", r.parsed[k]) /\ TableOk(M, r.parsed[k], m)

Ok(r) ==
  LET m == ParamCount(r.case.fn)
      M == TLCEval(Meaning(r.case.text, m, r.case.files))
  IN /\ "outcome" \in Aspects => OutcomeOk(M, r)
     /\ "meaning" \in Aspects => MeaningOk(M, r, m)
     /\ "kind" \in DOMAIN r.case => Clause("intended kind of case", r.case.kind = IF M.ok THEN "ok" ELSE "bad", M)

Init == l = 1
Next ==
  \/ l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ UNCHANGED l
Spec == Init /\ [][Next]_l
===============================================================================
