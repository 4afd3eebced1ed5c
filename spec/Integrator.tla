------------------------------- MODULE Integrator -------------------------------
(* Adaptive integration with recursive monotone stable quadrature formulas       *)
(* (Favati, Lotti and Romani 1991).  The domain is partitioned into parts; the    *)
(* result of a part is that of rule q, its error the difference to that of rule   *)
(* p.  While the total error is not below the goal (and the maximum number of     *)
(* refinements is not reached) a part with the largest error is bisected.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real64

Nodes == V(<<"0", "0.25", "0.5", "0.75", "0.875", "0.9375", "1", "0.375", "0.625", "0.96875", "0.125", "0.6875", "0.8125",
             "0.984375", "0.1875", "0.3125", "0.4375", "0.5625", "0.84375", "0.90625", "0.9921875">>)
Rules == {"13", "19", "27", "41"}
\* (the weight of the center is given for either side)
Weights(rule) == V(
  CASE rule = "13" -> <<"1.303262173284849021810473057638590518409112513421E-01", "2.390632866847646220320329836544615917290026806242E-01",
         "2.630626354774670227333506083741355715758124943143E-01", "2.186819313830574175167853094864355208948886875898E-01",
         "2.757897646642836865859601197607571474336674206700E-02", "1.055750100538458443365034879086669791305550493830E-01",
         "1.571194260595182254168429283636656908546309467968E-02">>
    [] rule = "19" -> <<"1.298751627936015783241173611320651866834051160074E-01", "2.249996826462523640447834514709508786970828213187E-01",
         "1.680415725925575286319046726692683040162290325505E-01", "1.415567675701225879892811622832845252125600939627E-01",
         "1.006482260551160175038684459742336605269707889822E-01", "2.510604860724282479058338820428989444699235030871E-02",
         "9.402964360009747110031098328922608224934320397592E-03", "5.542699233295875168406783695143646338274805359780E-02",
         "9.986735247403367525720377847755415293097913496236E-02", "4.507523056810492466415880450799432587809828791196E-02">>
    [] rule = "27" -> <<"6.300942249647773931746170540321811473310938661469E-02", "1.261383225537664703012999637242003647020326905948E-01",
         "1.273864433581028272878709981850307363453523117880E-01", "8.576500414311820514214087864326799153427368592787E-02",
         "7.102884842310253397447305465997026228407227220665E-02", "5.026383572857942403759829860675892897279675661654E-02",
         "4.683670010609093810432609684738393586390722052124E-03", "1.235837891364555000245004813294817451524633100256E-01",
         "1.148933497158144016800199601785309838604146040215E-01", "1.252575774226122633391477702593585307254527198070E-02",
         "1.239572396231834242194189674243818619042280816640E-01", "2.501306413750310579525950767549691151739047969345E-02",
         "4.915957918146130094258849161350510503556792927578E-02", "2.259167374956474713302030584548274729936249753832E-02">>
    [] rule = "41" -> <<"6.362762978782724559269342300509058175967124446839E-02", "9.950065827346794643193261975720606296171462239514E-02",
         "7.048220002718565366098742295389607994441704889441E-02", "6.512297339398335645872697307762912795346716454337E-02",
         "3.998229150313659724790527138690215186863915308702E-02", "3.456512257080287509832054272964315588028252136044E-02",
         "2.212167975884114432760321569298651047876071264944E-03", "8.140326425945938045967829319725797511040878579808E-02",
         "6.583213447600552906273539578430361199084485578379E-02", "2.592913726450792546064232192976262988065252032902E-02",
         "1.187141856692283347609436153545356484256869129472E-01", "5.999947605385971985589674757013565610751028128731E-02",
         "5.500937980198041736910257988346101839062581489820E-02", "5.264422421764655969760271538981443718440340270116E-03",
         "1.533126874056586959338368742803997744815413565014E-02", "3.527159369750123100455704702965541866345781113903E-02",
         "5.000556431653955124212795201196389006184693561679E-02", "5.744164831179720106340717579281831675999717767532E-02",
         "1.598823797283813438301248206397233634639162043386E-02", "2.635660410220884993472478832884065450876913559421E-02",
         "1.196003937945541091670106760660561117114584656319E-02">>)
\* polynomials up to this degree are integrated exactly
Degree(rule) == CASE rule = "13" -> 13 [] rule = "19" -> 19 [] rule = "27" -> 27 [] rule = "41" -> 41

(***************************************************************************)
(* Parts: F(x) is the sequence of integrand values at the abscissas x      *)
(***************************************************************************)
Half == R("0.5")
Rule(rule, F(_), a, b) ==
  LET w == Weights(rule)
      n == Len(w)
      c == Half \otimes (a \oplus b)
      h == Half \otimes (b \ominus a)
      x == TLCEval([i \in 1 .. 2 * n |-> IF i <= n THEN c \ominus (h \otimes Nodes[i]) ELSE c \oplus (h \otimes Nodes[i - n])])
      y == TLCEval(F(x))
  IN VDot(w, VAdd(SubSeq(y, 1, n), SubSeq(y, n + 1, 2 * n))) \otimes h

Part(p, q, F(_), a, b) ==
  LET r == Rule(q, F, a, b)
  IN TLCEval([a |-> a, b |-> b, res |-> r, err |-> RAbs(r \ominus Rule(p, F, a, b))])

Result(P) == VSum([i \in 1 .. Len(P) |-> P[i].res])
Error(P) == VSum([i \in 1 .. Len(P) |-> P[i].err])
MaxError(P) == VMaxAbs([i \in 1 .. Len(P) |-> P[i].err])

\* bisect part i (parts are kept in the order of the domain)
Bisect(p, q, F(_), P, i) ==
  LET c == Half \otimes (P[i].a \oplus P[i].b)
  IN TLCEval(SubSeq(P, 1, i - 1) \o <<Part(p, q, F, P[i].a, c), Part(p, q, F, c, P[i].b)>> \o SubSeq(P, i + 1, Len(P)))

\* the partition after at most n refinements (the first of equal errors is bisected)
RECURSIVE Refined(_, _, _, _, _, _)
Refined(p, q, F(_), P, goal, n) ==
  IF n = 0 \/ Error(P) \prec goal THEN P
  ELSE LET m == MaxError(P)
           i == CHOOSE i \in 1 .. Len(P) : REq(P[i].err, m) /\ \A j \in 1 .. i - 1 : ~REq(P[j].err, m)
       IN Refined(p, q, F, TLCEval(Bisect(p, q, F, P, i)), goal, n - 1)

Integral(p, q, F(_), a, b, goal, n) == Result(Refined(p, q, F, <<Part(p, q, F, a, b)>>, goal, n))

\* substitution u = exp(-x) for the domain from zero to infinity
Transformed(F(_), u) ==
  LET n == Len(u)
      x == TLCEval([i \in 1 .. n |-> IF R(0) \prec u[i] THEN RNeg(RLog(u[i])) ELSE R(0)])
      y == TLCEval(F(x))
  IN [i \in 1 .. n |-> IF R(0) \prec u[i] THEN y[i] \oslash u[i] ELSE R(0)]
===============================================================================
