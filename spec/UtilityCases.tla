----------------------------- MODULE UtilityCases -----------------------------
(* All short tables by kinds of lines, with every number of lines to skip, and  *)
(* all pairs of short files; with the design properties of the conversions.     *)
EXTENDS Utilities, Json

CONSTANTS MaxLines, MaxSkip, Grid, Gen

Kinds == {"two", "three", "more", "text", "blank", "one"}
Line(k, i) ==
  CASE k = "two" -> ToString(4000 + i) \o " " \o ToString(i) \o ".5"
    [] k = "three" -> "  " \o ToString(4000 + i) \o ".0 -1.5e" \o ToString(i) \o "  0." \o ToString(i)
    [] k = "more" -> ToString(4000 + i) \o "\t" \o ToString(i) \o " 0.25 1 x"
    [] k = "text" -> IF i % 2 = 0 THEN "# 4000 1 2" ELSE "wavelength flux"
    [] k = "blank" -> IF i % 2 = 0 THEN "" ELSE "  "
    [] OTHER -> IF i % 2 = 0 THEN ToString(4000 + i) ELSE ToString(4000 + i) \o " flux 0.1"

VARIABLES f, g, phase
vars == <<f, g, phase>>
Lines(s) == [i \in 1 .. Len(s) |-> Line(s[i], i)]

Init == f = <<>> /\ g = <<>> /\ phase = "first"
Next ==
  \/ phase = "first" /\ Len(f) < MaxLines /\ \E k \in Kinds : f' = Append(f, k) /\ UNCHANGED <<g, phase>>
  \/ phase = "first" /\ phase' = "second" /\ UNCHANGED <<f, g>>
  \/ phase = "second" /\ Len(g) < MaxLines /\ \E k \in {"two", "text"} : g' = Append(g, k) /\ UNCHANGED <<f, phase>>

Good(s, skip) == Len(s) > skip /\ \A i \in skip + 1 .. Len(s) : s[i] \in {"two", "three", "more"}

\* every row after the skipped ones gives exactly one row, in order, or the input is refused as a whole
FilterOk ==
  phase = "first" => \A skip \in 0 .. MaxSkip :
    LET o == Filter(Lines(f), skip)
    IN IF Good(f, skip)
       THEN /\ o.exit = 0
            /\ Len(o.rows) = Len(f) - skip
            /\ \A i \in 1 .. Len(o.rows) : LET w == Words(Line(f[i + skip], i + skip)) IN o.rows[i].x = w[1] /\ o.rows[i].y = w[2]
            /\ \A i \in 1 .. Len(o.rows) : f[i + skip] = "two" => o.rows[i].z = "0"
       ELSE o = Failure(InputError)
ZipOk ==
  phase = "second" => \A skip \in 0 .. MaxSkip :
    LET o == Merge(Lines(f), Lines(g), skip)
    IN IF Good(f, skip) /\ Good(g, skip) /\ Len(f) = Len(g)
       THEN /\ o.exit = 0
            /\ Len(o.rows) = Len(f) - skip
            /\ \A i \in 1 .. Len(o.rows) : o.rows[i].z = Words(Line(g[i + skip], i + skip))[2]
       ELSE o = Failure(InputError)

\* air wavelengths increase with vacuum wavelengths above 2000 Angstrom, and both conversions are inverse to each other
Wave(i) == R(2000) \oplus (R(i * i) \otimes R("0.75"))
InverseOk ==
  phase = "first" /\ f = <<>> => \A h \in DOMAIN Coefficients : \A i \in 0 .. Grid :
    LET w == Wave(i)
        a == Air(h, w)
    IN /\ a \prec w /\ (w \otimes R("0.999")) \prec a
       /\ a \prec Air(h, Wave(i + 1))
       /\ RClose(Vacuum(h, a), w, R("1e-13"), R(0))
       /\ LET x == R(10) \oslash w
              d == R("1e-6") \otimes x
          IN RClose(DispersionSlope(h, x), (Dispersion(h, x \oplus d) \ominus Dispersion(h, x \ominus d)) \oslash (R(2) \otimes d), R("1e-8"), R(0))
DopplerOk ==
  phase = "first" /\ f = <<>> => \A i \in 0 .. Grid :
    LET v == R(i) \otimes (R("2.9e8") \oslash R(Grid))
    IN /\ RClose(Doppler(v) \otimes Doppler(RNeg(v)), R(1), R("1e-13"), R(0))
       /\ (i > 0 => R(1) \prec Doppler(v))

Emit == /\ Gen /\ phase = "first" => PrintT(<<"CASE", ToJson([f |-> Lines(f)])>>)
        /\ Gen /\ phase = "second" /\ Len(f) > 0 => PrintT(<<"CASE", ToJson([f |-> Lines(f), g |-> Lines(g)])>>)
Spec == Init /\ [][Next]_vars
===============================================================================
