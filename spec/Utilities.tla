------------------------------ MODULE Utilities ------------------------------
(* The utilities for spectroscopic data: airtovac, vactoair, helicorr, ezip.    *)
(* A case is [tool, args, stdin, files], where stdin and every file is a        *)
(* sequence of lines and files maps path names (arguments) to files.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real64, Text, Sections

(***************************************************************************)
(* Dispersion of standard air: the wave number in air y = n(x) x for the   *)
(* wave number x in vacuum (nm-1), with two resonances.                    *)
(***************************************************************************)
Coefficients ==
  [birch94 |-> <<"8.34254e-5", "1.5998e-10", "38.9e-6", "2.406147e-8", "130e-6">>,
   edlen53 |-> <<"6.43280e-5", "2.5540e-10", "41.0e-6", "2.949810e-8", "146e-6">>,
   edlen66 |-> <<"8.34213e-5", "1.5997e-10", "38.9e-6", "2.406030e-8", "130e-6">>]

Refractive(f, x) ==
  LET c == Coefficients[f]
  IN ((R(1) \oplus R(c[1])) \oplus (R(c[2]) \oslash (R(c[3]) \ominus RSq(x)))) \oplus (R(c[4]) \oslash (R(c[5]) \ominus RSq(x)))
Dispersion(f, x) == Refractive(f, x) \otimes x
\* d(n x)/dx = n + x n'
DispersionSlope(f, x) ==
  LET c == Coefficients[f]
      term(a, b) == ((R(2) \otimes R(a)) \otimes x) \oslash RSq(R(b) \ominus RSq(x))
  IN Refractive(f, x) \oplus (x \otimes (term(c[2], c[3]) \oplus term(c[4], c[5])))

Air(f, w) == R(10) \oslash Dispersion(f, R(10) \oslash w)

\* the vacuum wavelength above 2000 Angstrom with the air wavelength w: bisection (air wavelengths increase)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(f, w, a, b, n) ==
  LET m == R("0.5") \otimes (a \oplus b)
  IN IF n = 0 THEN m
     ELSE IF Air(f, m) \prec w THEN Bisect(f, w, m, b, n - 1) ELSE Bisect(f, w, a, m, n - 1)
Vacuum(f, w) == Bisect(f, w, w, w \otimes R("1.001"), 50)

LightSpeed == R("299792458")
Doppler(v) == RSqrt((R(1) \oplus (v \oslash LightSpeed)) \oslash (R(1) \ominus (v \oslash LightSpeed)))

(***************************************************************************)
(* Reading tables: every line after the skipped ones is a row of numbers.  *)
(***************************************************************************)
Number(w, i) == Len(w) >= i /\ IsNumber(w[i])
Entry(line) ==
  LET w == Words(line)
  IN [ok |-> Number(w, 1) /\ Number(w, 2), x |-> IF Number(w, 1) THEN w[1] ELSE "0", y |-> IF Number(w, 2) THEN w[2] ELSE "0",
      z |-> IF Number(w, 3) THEN w[3] ELSE "0"]
Table(lines, skip) ==
  LET rows == TLCEval([k \in 1 .. (IF Len(lines) > skip THEN Len(lines) - skip ELSE 0) |-> Entry(lines[k + skip])])
  IN [ok |-> rows # <<>> /\ \A k \in 1 .. Len(rows) : rows[k].ok, rows |-> rows]

(***************************************************************************)
(* The outcome of a tool: [exit, usage, rows], each row with the numerals  *)
(* x, y, z of the input; what is to be written is given by Written below.  *)
(***************************************************************************)
Failure(s) == [exit |-> s, usage |-> FALSE, rows |-> <<>>]
Success(rows) == [exit |-> 0, usage |-> FALSE, rows |-> rows]
Usage == [exit |-> 0, usage |-> TRUE, rows |-> <<>>]

InvalidArguments == 8
InputError == 16

\* skip is the position of the optional argument
SkipOf(args, i) == IF Len(args) >= i THEN args[i] ELSE "0"
RECURSIVE Value(_)
Digit(d) == CHOOSE n \in 0 .. 9 : ToString(n) = d
Value(cs) == IF cs = <<>> THEN 0 ELSE 10 * Value(SubSeq(cs, 1, Len(cs) - 1)) + Digit(cs[Len(cs)])

Filter(lines, skip) ==
  LET t == Table(lines, skip)
  IN IF t.ok THEN Success(t.rows) ELSE Failure(InputError)

Merge(f, g, skip) ==
  LET s == Table(f, skip)
      t == Table(g, skip)
  IN IF s.ok /\ t.ok /\ Len(s.rows) = Len(t.rows)
     THEN Success([k \in 1 .. Len(s.rows) |-> [x |-> s.rows[k].x, y |-> s.rows[k].y, z |-> t.rows[k].y]])
     ELSE Failure(InputError)

Outcome(c) ==
  LET a == c.args
  IN CASE c.tool \in {"airtovac", "vactoair"} ->
            IF Len(a) > 1 \/ ~IsNatural(SkipOf(a, 1)) THEN Failure(InvalidArguments)
            ELSE Filter(c.stdin, Value(Chars(SkipOf(a, 1))))
       [] c.tool = "helicorr" ->
            IF a = <<>> THEN Usage
            ELSE IF Len(a) > 2 \/ ~IsNumber(a[1]) \/ ~IsNatural(SkipOf(a, 2)) THEN Failure(InvalidArguments)
            ELSE Filter(c.stdin, Value(Chars(SkipOf(a, 2))))
       [] OTHER ->
            IF a = <<>> THEN Usage
            ELSE IF Len(a) \notin {2, 3} \/ ~IsNatural(SkipOf(a, 3)) THEN Failure(InvalidArguments)
            ELSE IF \E k \in 1 .. 2 : a[k] \notin DOMAIN c.files THEN Failure(InputError)
            ELSE Merge(c.files[a[1]], c.files[a[2]], Value(Chars(SkipOf(a, 3))))

\* the wavelength to be written for the wavelength x
Converted(c, x) ==
  CASE c.tool = "vactoair" -> Air("edlen66", x)
    [] c.tool = "airtovac" -> Vacuum("edlen66", x)
    [] c.tool = "helicorr" -> x \otimes Doppler(R(c.args[1]))
    [] OTHER -> x
===============================================================================
