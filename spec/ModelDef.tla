------------------------------- MODULE ModelDef -------------------------------
(* The meaning of a model definition.                                           *)
(*                                                                              *)
(* A definition is a text.  Comments begin with a percent sign and last until   *)
(* the end of the line; blank lines do not matter.  Blocks in braces define     *)
(* sections: identifier, data file, wavelength range, number of Legendre        *)
(* polynomials and masked intervals in the first line; the resolution           *)
(* parameter; then spectral lines, each an identifier followed by the           *)
(* parameters of the profile function.  A parameter is given by a value, two    *)
(* bounds and a flag (is optimized), optionally followed by the identifier of   *)
(* the section or line whose corresponding parameter it refers to.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real64, Text, SequencesExt

Blank == {" ", "\t", "\r", "\n"}

Positions(s, P(_)) == SelectSeq([i \in 1 .. Len(s) |-> i], P)

\* the pieces of s between separators
Split(s, sep) ==
  LET p == TLCEval(Positions(s, LAMBDA i : s[i] = sep))
      n == Len(p)
  IN [k \in 1 .. n + 1 |-> SubSeq(s, IF k = 1 THEN 1 ELSE p[k - 1] + 1, IF k = n + 1 THEN Len(s) ELSE p[k] - 1)]

Words(s) ==
  LET b == TLCEval(Positions(s, LAMBDA i : s[i] \notin Blank /\ (i = 1 \/ s[i - 1] \in Blank)))
      e == TLCEval(Positions(s, LAMBDA i : s[i] \notin Blank /\ (i = Len(s) \/ s[i + 1] \in Blank)))
  IN [k \in 1 .. Len(b) |-> Str(SubSeq(s, b[k], e[k]))]

Uncommented(s) ==
  LET p == Positions(s, LAMBDA i : s[i] = "%") IN IF p = <<>> THEN s ELSE SubSeq(s, 1, p[1] - 1)

IsBlank(s) == \A i \in 1 .. Len(s) : s[i] \in Blank

\* the text without comments and blank lines
Stripped(text) ==
  LET ls == TLCEval(Split(Chars(text), "\n"))
      us == TLCEval([k \in 1 .. Len(ls) |-> Uncommented(ls[k])])
      ks == SelectSeq(us, LAMBDA u : ~IsBlank(u))
  IN FlattenSeq([k \in 1 .. Len(ks) |-> ks[k] \o <<"\n">>])

\* the blocks: the texts before closing braces (what follows the last one is ignored)
Blocks(text) == LET b == TLCEval(Split(Stripped(text), "}")) IN SubSeq(b, 1, Len(b) - 1)

\* words with the number of their line
Tokens(s) ==
  LET ls == TLCEval(Split(s, "\n"))
  IN FlattenSeq([k \in 1 .. Len(ls) |-> LET w == Words(ls[k]) IN [m \in 1 .. Len(w) |-> [t |-> w[m], line |-> k]]])

NextLine(toks, i) ==  \* the first token beyond the line of token i
  LET S == {k \in i .. Len(toks) : toks[k].line > toks[i].line}
  IN IF S = {} THEN Len(toks) + 1 ELSE CHOOSE k \in S : \A m \in S : k <= m

IsFlag(t) == t \in {"0", "1"}

\* the parameter at token i, the index of the token after it
Param(toks, i) ==
  IF i + 3 > Len(toks) THEN [ok |-> FALSE]
  ELSE IF ~(IsNumber(toks[i].t) /\ IsNumber(toks[i + 1].t) /\ IsNumber(toks[i + 2].t) /\ IsFlag(toks[i + 3].t))
  THEN [ok |-> FALSE]
  ELSE LET nx == NextLine(toks, i + 3)
       IN [ok |-> TRUE, next |-> nx,
           p |-> [val |-> R(toks[i].t), lo |-> R(toks[i + 1].t), up |-> R(toks[i + 2].t), opt |-> toks[i + 3].t = "1",
                  ref |-> IF nx > i + 4 THEN toks[i + 4].t ELSE ""]]

RECURSIVE Params(_, _, _)
Params(toks, i, m) ==
  IF m = 0 THEN [ok |-> TRUE, next |-> i, ps |-> <<>>]
  ELSE LET a == TLCEval(Param(toks, i))
       IN IF ~a.ok THEN [ok |-> FALSE]
          ELSE LET b == TLCEval(Params(toks, a.next, m - 1))
               IN IF ~b.ok THEN b ELSE [ok |-> TRUE, next |-> b.next, ps |-> <<a.p>> \o b.ps]

RECURSIVE Lines(_, _, _)
Lines(toks, i, m) ==
  IF i > Len(toks) THEN [ok |-> TRUE, ls |-> <<>>]
  ELSE LET a == TLCEval(Params(toks, i + 1, m))
       IN IF ~a.ok THEN [ok |-> FALSE]
          ELSE LET b == TLCEval(Lines(toks, a.next, m))
               IN IF ~b.ok THEN b ELSE [ok |-> TRUE, ls |-> << [id |-> toks[i].t, ps |-> a.ps] >> \o b.ls]

\* masked intervals: pairs of numbers
MaskPairs(ws) ==
  LET S == {k \in 0 .. Len(ws) : \A i \in 1 .. k : IsNumber(ws[i])}
      n == (CHOOSE k \in S : \A m \in S : m <= k) \div 2
  IN [k \in 1 .. n |-> <<R(ws[2 * k - 1]), R(ws[2 * k])>>]

\* a section; m is the number of parameters of the profile function
SectionDef(block, m) ==
  LET p == Positions(block, LAMBDA i : block[i] = "{")
  IN IF p = <<>> THEN [ok |-> FALSE, why |-> "no opening brace"]
     ELSE LET toks == TLCEval(Tokens(SubSeq(block, p[1] + 1, Len(block))))
          IN IF Len(toks) < 5 \/ ~(IsNumber(toks[3].t) /\ IsNumber(toks[4].t) /\ IsNatural(toks[5].t))
             THEN [ok |-> FALSE, why |-> "head"]
             ELSE LET nx == NextLine(toks, 5)
                      r == TLCEval(Param(toks, nx))
                  IN IF ~r.ok THEN [ok |-> FALSE, why |-> "resolution"]
                     ELSE LET ls == TLCEval(Lines(toks, r.next, m))
                          IN IF ~ls.ok THEN [ok |-> FALSE, why |-> "line"]
                             ELSE [ok |-> TRUE, id |-> toks[1].t, file |-> toks[2].t,
                                   a |-> R(toks[3].t), b |-> R(toks[4].t), legendre |-> toks[5].t,
                                   masks |-> MaskPairs([k \in 1 .. nx - 6 |-> toks[k + 5].t]),
                                   res |-> r.p, lines |-> ls.ls]

(***************************************************************************)
(* All parameters of a definition in order: each belongs to a section      *)
(* (k = 0: its resolution) or to a line (k > 0: the k-th parameter).       *)
(***************************************************************************)
AllParams(secs) ==
  FlattenSeq([s \in 1 .. Len(secs) |->
    << [p |-> secs[s].res, kind |-> "section", id |-> secs[s].id, k |-> 0] >>
      \o FlattenSeq([q \in 1 .. Len(secs[s].lines) |->
           [k \in 1 .. Len(secs[s].lines[q].ps) |->
              [p |-> secs[s].lines[q].ps[k], kind |-> "line", id |-> secs[s].lines[q].id, k |-> k]]])])

Unique(ids) == \A i, j \in 1 .. Len(ids) : ids[i] = ids[j] => i = j

\* the parameter that i refers to: 0 if it does not refer, -1 if the identifier is unknown
Referred(all, i) ==
  IF all[i].p.ref = "" THEN 0
  ELSE LET S == {j \in 1 .. Len(all) : all[j].kind = all[i].kind /\ all[j].k = all[i].k /\ all[j].id = all[i].p.ref}
       IN IF S = {} THEN -1 ELSE CHOOSE j \in S : TRUE

\* the end of the chain of references of i (0: there is none)
End(refs, n) ==
  LET E[i \in 1 .. n, hops \in 0 .. n] ==
        IF refs[i] = 0 THEN i
        ELSE IF refs[i] < 0 \/ hops = 0 THEN 0
        ELSE E[refs[i], hops - 1]
  IN [i \in 1 .. n |-> E[i, n]]

\* the data of a section; files: name -> [ok, wav]
DataOk(s, files) ==
  /\ s.file \in DOMAIN files
  /\ files[s.file].ok
  /\ \E i \in 1 .. Len(files[s.file].wav) : s.a \preceq R(files[s.file].wav[i]) /\ R(files[s.file].wav[i]) \preceq s.b

IllFormed(why) == [ok |-> FALSE, why |-> why]

Meaning(text, m, files) ==
  LET blocks == TLCEval(Blocks(text))
      secs == TLCEval([k \in 1 .. Len(blocks) |-> SectionDef(blocks[k], m)])
  IN IF secs = <<>> THEN IllFormed("no section")
     ELSE IF \E k \in 1 .. Len(secs) : ~secs[k].ok THEN IllFormed(<<"syntax", {secs[k].why : k \in {j \in 1 .. Len(secs) : ~secs[j].ok}}>>)
     ELSE LET all == TLCEval(AllParams(secs))
              n == Len(all)
              refs == TLCEval([i \in 1 .. n |-> Referred(all, i)])
              end == TLCEval(End(refs, n))
              lids == FlattenSeq([s \in 1 .. Len(secs) |-> [q \in 1 .. Len(secs[s].lines) |-> secs[s].lines[q].id]])
              own(i) == all[i].p.opt /\ all[i].p.ref = "" /\ ~REq(all[i].p.lo, all[i].p.up)
              free == TLCEval(SelectSeq([i \in 1 .. n |-> i], own))
          IN IF ~Unique([s \in 1 .. Len(secs) |-> secs[s].id]) THEN IllFormed("duplicate section")
             ELSE IF ~Unique(lids) THEN IllFormed("duplicate line")
             ELSE IF \E s \in 1 .. Len(secs) : ~DataOk(secs[s], files) THEN IllFormed("data")
             ELSE IF \E i \in 1 .. n : refs[i] < 0 THEN IllFormed("unknown reference")
             ELSE IF \E i \in 1 .. n : end[i] = 0 THEN IllFormed("cyclic reference")
             ELSE [ok |-> TRUE, secs |-> secs, all |-> all, end |-> end, free |-> free,
                   lo |-> [k \in 1 .. Len(free) |-> RMin(all[free[k]].p.lo, all[free[k]].p.up)],
                   up |-> [k \in 1 .. Len(free) |-> RMax(all[free[k]].p.lo, all[free[k]].p.up)]]

\* the index (into the vector of optimized parameters) of parameter i; 0: it is constant
Index(M, i) ==
  LET S == {k \in 1 .. Len(M.free) : M.free[k] = M.end[i]} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE

\* a constant flagged as optimized has coinciding bounds: its value is theirs
Constant(p) == IF p.opt THEN p.lo ELSE p.val

Value(M, x, i) == IF Index(M, i) > 0 THEN x[Index(M, i)] ELSE Constant(M.all[M.end[i]].p)
================================================================================
