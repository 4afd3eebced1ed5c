-------------------------------- MODULE RunTrace --------------------------------
(* Runs of the fitting programs and of the extraction tools.                    *)
(* e = "tool": a tool applied to a document.                                    *)
(* e = "run": a program run on args and stdin: status, out (lines), api: the    *)
(*   same search by means of the library (model, configuration, every traced    *)
(*   generation, result, report), extracted: the blocks extracted from the      *)
(*   output by the tools, again: the output of the extracted command run on the *)
(*   extracted model; sure: facts that hold by construction of the run.         *)
(*   Aspects: "outcome", "preserve".                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real64, Text, Extract, Json, IOUtils

CONSTANT Aspects

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

O == INSTANCE Outcome WITH Variant <- "none", Gen <- FALSE, facts <- 0, stage <- 0, out <- 0, status <- 0

Clause(name, p, info) == IF p THEN TRUE ELSE PrintT(<<"REJECTED", l, name, info>>) /\ FALSE
Aspect(a, p) == a \in Aspects => p

ToolOk(r) ==
  LET o == TLCEval(Extract(r.tool, r.lines))
  IN /\ Clause("status of a tool", r.status = 0, r.status)
     /\ Clause("extracted lines", r.out = o, <<r.tool, r.lines, r.out>>)

(***************************************************************************)
(* Facts about a run.                                                      *)
(***************************************************************************)
Largest(b) == IF b = 32 THEN R("4294967295") ELSE R("18446744073709551615")
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
ArgumentOk(a, i) ==
  IF i \in {4, 5} THEN IsNumber(a)
  ELSE a # "" /\ (\A c \in Range(Chars(a)) : c \in Digits) /\ R(a) \preceq Largest(IF i = 1 THEN 64 ELSE 32)
FactsOf(r) ==
  LET n == Len(r.args)
      good == n = 7 /\ \A i \in 1 .. 7 : ArgumentOk(r.args[i], i)
  IN [args |-> CASE n = 0 -> "none" [] n # 7 -> "count" [] ~good -> "unreadable" [] OTHER -> "good",
      model |-> CASE good /\ r.api.error = "std::bad_alloc" -> "excessive" [] good /\ r.api.error # "" -> "bad" [] OTHER -> "good",
      config |-> IF good /\ (REq(R(r.args[2]), R(0)) \/ R(r.args[3]) \preceq R(r.args[2])) THEN "refused" ELSE "good",
      ending |-> IF ~good \/ r.api.stage # "done" THEN "failed"
                 ELSE IF r.api.found.opt THEN "optimized" ELSE IF r.api.found.und THEN "underflow" ELSE "stopped"]

Tokens(line) ==
  LET s == TLCEval(Chars(line))
      b == TLCEval(SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : s[i] # " " /\ (i = 1 \/ s[i - 1] = " ")))
      e == TLCEval(SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : s[i] # " " /\ (i = Len(s) \/ s[i + 1] = " ")))
  IN [k \in 1 .. Len(b) |-> Str(SubSeq(s, b[k], e[k]))]

Position(lines, s) == CHOOSE i \in 1 .. Len(lines) : lines[i] = s
Ordered(lines, ms) == \A k \in 1 .. Len(ms) - 1 : Position(lines, ms[k]) < Position(lines, ms[k + 1])

Starts == <<"<command>", "<model>", "<log>", "<message>", "<data>">>
Ends == <<"</command>", "</model>", "</log>", "</message>", "</data>">>
Results == {"<message>", "</message>", "<data>", "</data>"}

(***************************************************************************)
(* The trace: the generations that are multiples of the modulus, and the   *)
(* one in which the search has converged.                                  *)
(***************************************************************************)
Logged(r) ==
  SelectSeq(r.api.traced, LAMBDA t :
    \/ (r.args[7] # "0" /\ t.g % r.modulus = 0)
    \/ (r.api.found.opt /\ t.g = r.api.found.g))
Near(a, b) == IF IsNumber(b) THEN IsNumber(a) /\ RClose(R(a), R(b), R("5.1e-5"), R("1e-300")) ELSE ~IsNumber(a)
LogLine(s, t) ==
  LET w == Tokens(s)
  IN Len(w) = 4 /\ w[1] = ToString(t.g) /\ Near(w[2], t.y) /\ Near(w[3], t.min) /\ Near(w[4], t.max)
LogOk(r, log) ==
  LET x == TLCEval(Logged(r))
  IN /\ Clause("number of traced generations", Len(log) = Len(x), <<Len(log), Len(x)>>)
     /\ \A k \in 1 .. Len(x) : Clause("traced generation", LogLine(log[k], x[k]), <<log[k], x[k]>>)

Prefix == "especia::Runner::run() "
Messages(r) ==
  (IF r.api.found.opt THEN <<Prefix \o "Message: optimization completed successfully">>
   ELSE <<Prefix \o "Warning: optimization stopped at generation " \o ToString(r.api.found.g)>>)
  \o (IF r.api.found.und THEN <<Prefix \o "Warning: optimization stopped because of an underflow of the mutation variance">> ELSE <<>>)

Suffix(a, b) == Len(a) >= Len(b) /\ SubSeq(a, Len(a) - Len(b) + 1, Len(a)) = b

HasText(line, s) ==
  LET a == Chars(line)
      b == Chars(s)
  IN \E i \in 1 .. Len(a) - Len(b) + 1 : SubSeq(a, i, i + Len(b) - 1) = b

OutcomeOk(r, f) ==
  /\ Clause("exit status", r.status = O!Status(f), <<r.status, O!Status(f), f>>)
  /\ f.args = "none" => Clause("usage", r.out # <<>> /\ \E k \in 1 .. Len(r.out) : HasText(r.out[k], "usage:"), r.out)
  /\ f.args = "count" => Clause("no output", r.out = <<>>, r.out)
  /\ ~O!Finished(f) =>
       /\ Clause("an error leaves no result", \A k \in 1 .. Len(r.out) : r.out[k] \notin Results /\ ~HasText(r.out[k], "<table"), f)
       /\ f.args # "none" => Clause("an error is reported", r.err # <<>>, f)
  /\ O!Finished(f) =>
       /\ Clause("blocks", \A k \in 1 .. 5 : Count(r.out, Starts[k]) = 1 /\ Count(r.out, Ends[k]) = 1, f)
       /\ Clause("order of blocks", Ordered(r.out, <<Starts[1], Ends[1], Starts[2], Ends[2], Starts[3], Ends[3], Starts[4], Ends[4], Starts[5], Ends[5]>>), f)
       /\ LogOk(r, Extract("elog", r.out))
       /\ Clause("messages", Extract("emes", r.out) = Messages(r), <<Extract("emes", r.out), Messages(r)>>)
       /\ Clause("report", Suffix(r.out, r.api.report), Len(r.api.report))

RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE " " \o ws[1] \o Join(SubSeq(ws, 2, Len(ws)))

PreserveOk(r, f) ==
  f.args \in {"good", "unreadable"} =>
    /\ \A t \in Tools : Clause("extracted block", r.extracted[t] = Extract(t, r.out), <<t, r.extracted[t]>>)
    /\ Clause("command line", r.extracted.ecom = <<Join(<<r.arg0>> \o r.args)>>, r.extracted.ecom)
    /\ f.args = "good" => Clause("model definition", r.extracted.emod = r.stdin, <<Len(r.stdin), Len(r.extracted.emod)>>)
    /\ O!Finished(f) =>
         /\ LogOk(r, r.extracted.elog)
         /\ Clause("extracted messages", r.extracted.emes = Messages(r), r.extracted.emes)
         /\ Clause("fitted data", r.extracted.edat = Extract("edat", r.api.report), Len(r.extracted.edat))
    /\ f.args = "good" => Clause("same result", r.again.status = r.status /\ r.again.out = r.out, <<r.status, r.again.status>>)

RunOk(r) ==
  LET f == TLCEval(FactsOf(r))
  IN /\ Aspect("outcome", \A x \in DOMAIN r.sure : Clause("a fact by construction", f[x] = r.sure[x], <<x, f, r.api>>))
     /\ Aspect("outcome", OutcomeOk(r, f))
     /\ Aspect("preserve", PreserveOk(r, f))

Ok(r) == IF r.e = "tool" THEN ToolOk(r) ELSE RunOk(r)

Init == l = 1
Next == l <= Len(Trace) /\ (\E ok \in {Ok(Trace[l])} : ok) /\ l' = l + 1
Done == l > Len(Trace) /\ UNCHANGED l
Spec == Init /\ [][Next \/ Done]_l
===============================================================================
