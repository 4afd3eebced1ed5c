------------------------------- MODULE Sampling -------------------------------
(* Constrained sampling on a grid: an individual starts at the mean and moves    *)
(* along one (rotated) principal axis after the other; a step that leaves the    *)
(* box is redrawn, earlier steps are kept.  After a population has been drawn    *)
(* any Mu individuals are recombined with any weights; the mean is rational      *)
(* (numerator mean, denominator den).                                            *)
(*                                                                               *)
(* Variant names a deliberately broken design, which must be refuted:            *)
(*   "last"      only the first axis is tested against the bounds                *)
(*   "restart"   a violation discards the steps made along earlier axes          *)
(*   "overshoot" recombination extrapolates beyond the best individual           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Lo, Up, MaxStep, Lambda, Generations, Variant

Steps == (-MaxStep .. MaxStep) \ {0}
Axis == << <<1, 1>>, <<1, -1>> >>
Weights == {<<1, 1>>, <<2, 1>>}

VARIABLES g, mean, den, x, j, drawn, pop, hist
vars == <<g, mean, den, x, j, drawn, pop, hist>>

In(p, m) == \A i \in 1 .. 2 : Lo * m <= p[i] /\ p[i] <= Up * m

Init ==
  /\ mean \in (Lo .. Up) \X (Lo .. Up) /\ den = 1
  /\ g = 0 /\ x = mean /\ j = 1 /\ drawn = <<>> /\ pop = <<>> /\ hist = <<>>

Move(p, k, z) == [i \in 1 .. 2 |-> p[i] + z * Axis[k][i] * den]

DrawStep ==
  /\ Len(pop) < Lambda /\ j <= 2 /\ g < Generations
  /\ \E z \in Steps :
       LET p == Move(x, j, z)
       IN IF In(p, den) \/ (Variant = "last" /\ j = 2)
          THEN x' = p /\ j' = j + 1 /\ drawn' = Append(drawn, z) /\ hist' = Append(hist, x)
          ELSE IF Variant = "restart" THEN x' = mean /\ j' = 1 /\ drawn' = <<>> /\ hist' = Append(hist, mean)
          ELSE UNCHANGED <<x, j, drawn, hist>>
  /\ UNCHANGED <<g, mean, den, pop>>

Finish ==
  /\ j = 3
  /\ pop' = Append(pop, x) /\ x' = mean /\ j' = 1 /\ drawn' = <<>> /\ hist' = <<>>
  /\ UNCHANGED <<g, mean, den>>

Recombine ==
  /\ Len(pop) = Lambda
  /\ \E a, b \in 1 .. Lambda, w \in Weights :
       /\ a # b
       /\ mean' = [i \in 1 .. 2 |-> IF Variant = "overshoot" THEN (w[1] + w[2] + 1) * pop[a][i] - pop[b][i]
                                    ELSE w[1] * pop[a][i] + w[2] * pop[b][i]]
       /\ den' = den * (w[1] + w[2])
  /\ x' = mean' /\ j' = 1 /\ drawn' = <<>> /\ pop' = <<>> /\ hist' = <<>> /\ g' = g + 1

Next == DrawStep \/ Finish \/ Recombine
Spec == Init /\ [][Next]_vars

Path(d) == LET P[k \in 0 .. Len(d)] == IF k = 0 THEN mean ELSE Move(P[k - 1], k, d[k]) IN P[Len(d)]

EvaluatedWithin == \A k \in 1 .. Len(pop) : In(pop[k], den)
MeanWithin == In(mean, den)
StepsWithin == In(x, den)
\* nothing but the offending step is redrawn
KeepsSteps == [][Len(drawn') < Len(drawn) => pop' # pop]_vars
Consistent == x = Path(drawn)
===============================================================================
