----------------------------- MODULE UtilityTrace -----------------------------
(* Runs of the utilities: [e |-> "run", tool, args, stdin, files, status,       *)
(* stdout (lines)], round trips through both conversions, and values of the     *)
(* dispersion formulas.                                                         *)
EXTENDS Utilities, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE

StartsWith(s, t) == LET a == Chars(s) b == Chars(t) IN Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b

\* written with 6 decimals
Same(a, b) == RClose(R(a), R(b), R("5.1e-7"), R("1e-307"))
RowOk(c, in, line) ==
  LET w == Words(line)
  IN /\ Clause("columns", Len(w) = 3 /\ \A k \in 1 .. 3 : IsNumber(w[k]), line)
     /\ Clause("wavelength", RClose(R(w[1]), Converted(c, R(in.x)), R("1e-11"), R("6e-7")), <<line, RStr(Converted(c, R(in.x)))>>)
     /\ Clause("flux", Same(w[2], in.y), <<line, in>>)
     /\ Clause("uncertainty", Same(w[3], in.z), <<line, in>>)

RunOk(r) ==
  LET o == TLCEval(Outcome(r))
  IN /\ Clause("exit status", r.status = o.exit, <<r.status, o.exit>>)
     /\ IF o.usage THEN Clause("usage", Len(r.stdout) > 0 /\ StartsWith(r.stdout[1], "usage:"), r.stdout)
        ELSE /\ Clause("one row per row", Len(r.stdout) = Len(o.rows), <<Len(r.stdout), Len(o.rows)>>)
             /\ \A k \in 1 .. Len(o.rows) : RowOk(r, o.rows[k], r.stdout[k])

\* in, out: rows before and after both conversions; each rounds to 6 decimals
RoundTripOk(r) ==
  /\ Clause("exit status of the round trip", r.status = 0, r.status)
  /\ Clause("rows of the round trip", Len(r.out) = Len(r.in), Len(r.out))
  /\ \A k \in 1 .. Len(r.in) :
       LET w == Words(r.out[k])
           u == Words(r.in[k])
       IN Clause("restored", Len(w) = 3 /\ RClose(R(w[1]), R(u[1]), R("1e-11"), R("1.2e-6")) /\ Same(w[2], u[2]) /\ Same(w[3], u[3]),
                 <<r.in[k], r.out[k]>>)

FormulaOk(r) ==
  LET x == R(r.x)
      y == Dispersion(r.f, x)
  IN /\ Clause("dispersion", RClose(R(r.y), y, R("1e-14"), R(0)), <<r.y, RStr(y)>>)
     /\ Clause("dispersion (both forms)", RClose(R(r.u), y, R("1e-14"), R(0)), <<r.u, RStr(y)>>)
     /\ Clause("derivative", RClose(R(r.z), DispersionSlope(r.f, x), R("1e-12"), R(0)), <<r.z, RStr(DispersionSlope(r.f, x))>>)
     /\ Clause("inverse", RClose(R(r.inv), x, R("1e-11"), R(0)), <<r.inv, r.x>>)

Ok(r) == CASE r.e = "run" -> RunOk(r) [] r.e = "trip" -> RoundTripOk(r) [] OTHER -> FormulaOk(r)

Init == l = 1
Next == l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
Done == l > Len(Trace) /\ UNCHANGED l
Spec == Init /\ [][Next \/ Done]_l
===============================================================================
