----------------------------- MODULE SectionCases -----------------------------
(* All short inputs by kinds of lines, and all pairs of mask intervals on a      *)
(* small grid, with the design properties of reading and masking.                *)
EXTENDS Sections, Json

CONSTANTS MaxLines,   \* number of lines of an input
          Points,     \* number of data of a masked section
          Gen

Kinds == {"blank", "comment", "two", "three", "masked", "outside", "malformed"}
\* a line of a kind at position i (wavelengths 1, 2, 3, ...; outside: beyond 100)
Line(k, i) ==
  CASE k = "blank" -> ""
    [] k = "comment" -> (CASE i % 3 = 0 -> "# 1 2" [] i % 3 = 1 -> "%1 2 3" [] OTHER -> "! no data")
    [] k = "two" -> ToString(i) \o " 2.5"
    [] k = "three" -> ToString(i) \o "  0.75 0.1"
    [] k = "masked" -> ToString(i) \o "\t1.25 0.2 0"
    [] k = "outside" -> (IF i % 2 = 0 THEN "-1.0" ELSE "100.0625") \o " 4.0 0.3 1"
    [] OTHER -> (IF i % 2 = 0 THEN "x 2 3" ELSE "7")

VARIABLES lines, masks
vars == <<lines, masks>>

R4(i) == R(i) \otimes R("0.5")
Grid == Section([i \in 1 .. Points |-> [wav |-> R(i), flx |-> R(1), unc |-> R(1), msk |-> TRUE]])
Interval == {p \in (1 .. 2 * Points + 1) \X (1 .. 2 * Points + 1) : p[1] <= p[2] + 1}

Init == lines = <<>> /\ masks = <<>>
Next ==
  \/ masks = <<>> /\ Len(lines) < MaxLines /\ \E k \in Kinds : lines' = Append(lines, k) /\ UNCHANGED masks
  \/ lines = <<>> /\ Len(masks) < 2 /\ \E p \in Interval : masks' = Append(masks, p) /\ UNCHANGED lines

Written == [i \in 1 .. Len(lines) |-> Line(lines[i], i)]
Bounds == <<R("0.5"), R(50)>>
Got == Read(Written, 1, Bounds[1], Bounds[2])

FirstBlank == IF \E i \in 1 .. Len(lines) : lines[i] = "blank" THEN CHOOSE i \in 1 .. Len(lines) : lines[i] = "blank" /\ \A j \in 1 .. i - 1 : lines[j] # "blank" ELSE Len(lines) + 1
Wanted == SelectSeq([i \in 1 .. FirstBlank - 1 |-> i], LAMBDA i : lines[i] \in {"two", "three", "masked"})
\* exactly the wanted rows, in order, up to the first blank line
ReadingOk ==
  LET bad == \E i \in 1 .. FirstBlank - 1 : lines[i] = "malformed"
  IN /\ Got.malformed = bad
     /\ Got.ok = (~bad /\ Wanted # <<>>)
     /\ Got.next = FirstBlank + 1
     /\ Got.ok => /\ Len(Got.rows) = Len(Wanted)
                  /\ \A j \in 1 .. Len(Wanted) :
                       /\ Got.rows[j].wav = R(Wanted[j])
                       /\ Got.rows[j].msk = (lines[Wanted[j]] # "masked")
                       /\ lines[Wanted[j]] = "two" => Got.rows[j].unc = R(1)

RECURSIVE Masked(_, _)
Masked(s, ms) == IF ms = <<>> THEN s ELSE Masked(Mask(s, R4(ms[1][1]), R4(ms[1][2])), SubSeq(ms, 2, Len(ms)))
MaskingOk ==
  LET s == Masked(Grid, masks)
      t == Masked(Grid, [i \in 1 .. Len(masks) |-> masks[Len(masks) + 1 - i]])
  IN /\ s = t
     /\ Masked(s, masks) = s
     /\ \A i \in 1 .. Points : s.msk[i] = (\A j \in 1 .. Len(masks) : ~(masks[j][1] <= 2 * i /\ 2 * i <= masks[j][2]))

Emit == /\ Gen /\ lines # <<>> => PrintT(<<"CASE", ToJson([lines |-> Written])>>)
        /\ Gen /\ Len(masks) = 2 => PrintT(<<"CASE", ToJson([masks |-> masks])>>)
Spec == Init /\ [][Next]_vars
===============================================================================
