----------------------------- MODULE RandomModel -----------------------------
(* The published test values, and (as a generator of scripts) all interleavings  *)
(* of calls of two generators and a copy.                                        *)
EXTENDS Random, Json
CONSTANTS Steps

Published(g, ws) == LET s == Sequence(g, Len(ws)) IN \A i \in 1 .. Len(ws) : WEq(s[i], W(ws[i]))

\* reference outputs of the authors' implementations
ASSUME Published(FromKeys("melg19937_64", <<"0x12345", "0x23456", "0x34567", "0x45678">>),
                 <<"16675511042081433281", "8489326016911908102", "16071362722047509693", "11631833934008589069", "3308423691540511443", "12463994900921303743">>)
ASSUME Published(FromKeys("mt19937_32", <<"0x123", "0x234", "0x345", "0x456">>),
                 <<"1067595299", "955945823", "477289528", "4107218783", "4228976476", "3344332714", "3355579695", "227628506", "810200273", "2591290167">>)
ASSUME Published(FromKeys("mt19937_64", <<"0x12345", "0x23456", "0x34567", "0x45678">>),
                 <<"7266447313870364031", "4946485549665804864", "16945909448695747420", "16394063075524226720", "4873882236456199058", "14877448043947020171", "6740343660852211943">>)
ASSUME Published(FromPcg(W(42), W(54)), <<"0xa15c02b7", "0x7b47f409", "0xba1d3330", "0x83d2f293", "0xbfa4784b", "0xcbed606e">>)

\* the 1000th word of the first stream
RECURSIVE Skip(_, _)
Skip(g, n) == IF n = 0 THEN g ELSE Skip(TLCEval(Rand(g)[2]), n - 1)
ASSUME WEq(Rand(Skip(FromKeys("melg19937_64", <<"0x12345", "0x23456", "0x34567", "0x45678">>), 999))[1], W("13711744326396256691"))

(* Scripts: two generators A and B; C is a copy of A *)
VARIABLES script, copied
Ops == {"randA", "randB", "uniA", "uniB"} \cup (IF copied THEN {"randC", "uniC"} ELSE {"copy"})
Init == script = <<>> /\ copied = FALSE
Next == /\ Len(script) < Steps
        /\ \E o \in Ops : script' = Append(script, o) /\ copied' = (copied \/ o = "copy")
Spec == Init /\ [][Next]_<<script, copied>>
Emit == Len(script) = Steps => PrintT(<<"CASE", ToJson(script)>>)
===============================================================================
