-------------------------------- MODULE Random --------------------------------
(* Random number generators as published: Mersenne twister (Matsumoto and        *)
(* Nishimura 1998, 2002/2004 initialization), MELG-64 (Harase and Kimoto 2018)   *)
(* and PCG-XSH-RR-64/32 (O'Neill 2014).  A generator is a record; Rand gives the *)
(* next word and the generator's next state.                                     *)
EXTENDS Integers, Sequences, TLC, Real64, Word64, SequencesExt

All64 == W("0xffffffffffffffff")
Low(k) == IF k = 0 THEN W(0) ELSE WShr(All64, 64 - k)          \* the k lowest bits
High(w, k) == WShl(Low(k), w - k)                               \* the k highest bits of w-bit words

(***************************************************************************)
(* Parameters                                                              *)
(***************************************************************************)
Twister(w, n, m, r, a, u, d, s, b, t, c, l, f1, f2, f3) ==
  [kind |-> "mt", w |-> w, n |-> n, m |-> m, r |-> r, a |-> W(a), u |-> u, d |-> W(d), s |-> s, b |-> W(b),
   t |-> t, c |-> W(c), l |-> l, f1 |-> W(f1), f2 |-> W(f2), f3 |-> W(f3)]

Mt19937_32 == Twister(32, 624, 397, 31, "0x9908b0df", 11, "0xffffffff", 7, "0x9d2c5680", 15, "0xefc60000", 18,
                      "1812433253", "1664525", "1566083941")
Mt11213a_32 == Twister(32, 351, 175, 19, "0xe4bd75f5", 11, "0xffffffff", 7, "0x655e5280", 15, "0xffd58000", 17,
                       "1812433253", "1664525", "1566083941")
Mt11213b_32 == Twister(32, 351, 175, 19, "0xccab8ee7", 11, "0xffffffff", 7, "0x31b6ab00", 15, "0xffe50000", 17,
                       "1812433253", "1664525", "1566083941")
Mt19937_64 == Twister(64, 312, 156, 31, "0xb5026f5aa96619e9", 29, "0x5555555555555555", 17, "0x71d67fffeda60000", 37,
                      "0xfff7eee000000000", 43, "6364136223846793005", "3935559000370003845", "2862933555777941757")
Melg19937_64 ==
  [kind |-> "melg", w |-> 64, n |-> 311, m |-> 81, lag |-> 19, p |-> 33, a |-> W("0x5c32e06df730fc42"), s2 |-> 23, s3 |-> 33,
   s1 |-> 16, b |-> W("0x6aede6fd97b338ec"),
   f1 |-> W("6364136223846793005"), f2 |-> W("3935559000370003845"), f3 |-> W("2862933555777941757")]
Pcg_32 == [kind |-> "pcg", w |-> 32, mult |-> W("6364136223846793005"), selector |-> W("7863035247680335341")]

Parameters(gen) ==
  CASE gen = "mt19937_32" -> Mt19937_32 [] gen = "mt11213a_32" -> Mt11213a_32 [] gen = "mt11213b_32" -> Mt11213b_32
    [] gen = "mt19937_64" -> Mt19937_64 [] gen = "melg19937_64" -> Melg19937_64 [] gen = "pcg_32" -> Pcg_32
DefaultSeed == W("9600629759793949339")

(***************************************************************************)
(* Initialization of the twisters.  MELG has one more word, the lung.      *)
(***************************************************************************)
Words(P) == IF P.kind = "melg" THEN P.n + 1 ELSE P.n
Mix(P, x) == WXor(x, WShr(x, P.w - 2))

RECURSIVE Fill(_, _)
Fill(P, s) ==
  LET k == Len(s)
  IN IF k = Words(P) THEN s
     ELSE Fill(P, TLCEval(Append(s, WAnd(WAdd(WMul(Mix(P, s[k]), P.f1), k), Low(P.w)))))
InitSeed(P, seed) == Fill(P, <<WAnd(W(seed), Low(P.w))>>)

\* one step of the initialization by an array, at the word with (zero-based) index i
Wrap(P, t) == IF t.i + 1 >= P.n THEN [t EXCEPT !.i = 1, !.s = [t.s EXCEPT ![1] = t.s[P.n]]] ELSE [t EXCEPT !.i = t.i + 1]
InitArray(P, keys) ==
  LET K == Len(keys)
      s0 == TLCEval(InitSeed(P, "19650218"))
      Step1(t, k) ==
        LET j == (k - 1) % K
            x == WAdd(WAdd(WXor(t.s[t.i + 1], WMul(Mix(P, t.s[t.i]), P.f2)), W(keys[j + 1])), j)
        IN TLCEval(Wrap(P, [t EXCEPT !.s = [t.s EXCEPT ![t.i + 1] = WAnd(x, Low(P.w))]]))
      Step2(t, k) ==
        LET x == WSub(WXor(t.s[t.i + 1], WMul(Mix(P, t.s[t.i]), P.f3)), t.i)
        IN TLCEval(Wrap(P, [t EXCEPT !.s = [t.s EXCEPT ![t.i + 1] = WAnd(x, Low(P.w))]]))
      t1 == FoldLeft(Step1, [s |-> s0, i |-> 1], [k \in 1 .. (IF P.n > K THEN P.n ELSE K) |-> k])
      t2 == FoldLeft(Step2, t1, [k \in 1 .. P.n - 1 |-> k])
      top == WShl(1, P.w - 1)
  IN IF P.kind = "mt" THEN [t2.s EXCEPT ![1] = top]
     ELSE [t2.s EXCEPT ![P.n + 1] = WSub(WXor(t2.s[P.n + 1], WMul(Mix(P, t2.s[P.n]), P.f3)), P.n),
                       ![1] = WOr(t2.s[1], top)]

(***************************************************************************)
(* Generators                                                              *)
(***************************************************************************)
\* words of the sequence are generated one at a time, i is the (zero-based) index of the next one
FromKeys(gen, keys) == TLCEval([gen |-> gen, s |-> InitArray(Parameters(gen), keys), i |-> 0])

PcgNext(P, g) == WAdd(WMul(g.s, P.mult), g.inc)
FromPcg(seed, selector) ==
  LET g == [gen |-> "pcg_32", s |-> W(0), inc |-> WOr(WShl(selector, 1), 1)]
      g1 == [g EXCEPT !.s = PcgNext(Pcg_32, g)]
      g2 == [g1 EXCEPT !.s = WAdd(g1.s, W(seed))]
  IN TLCEval([g2 EXCEPT !.s = PcgNext(Pcg_32, g2)])

\* a single seed stands for its two halves
FromSeed(gen, seed) ==
  IF gen = "pcg_32" THEN FromPcg(seed, Pcg_32.selector)
  ELSE FromKeys(gen, <<WAnd(W(seed), Low(32)), WAnd(W(seed), High(64, 32))>>)

At(P, s, i) == s[(i % P.n) + 1]

\* <<word, next state>>
RandMt(g) ==
  LET P == Parameters(g.gen)
      y == WOr(WAnd(At(P, g.s, g.i), High(P.w, P.w - P.r)), WAnd(At(P, g.s, g.i + 1), Low(P.r)))
      x == WXor(WXor(At(P, g.s, g.i + P.m), WShr(y, 1)), IF WEq(WAnd(y, 1), 1) THEN P.a ELSE W(0))
      t1 == WXor(x, WAnd(WShr(x, P.u), P.d))
      t2 == WXor(t1, WAnd(WShl(t1, P.s), P.b))
      t3 == WXor(t2, WAnd(WShl(t2, P.t), P.c))
  IN <<TLCEval(WXor(t3, WShr(t3, P.l))), TLCEval([g EXCEPT !.s = [g.s EXCEPT ![g.i + 1] = x], !.i = (g.i + 1) % P.n])>>

RandMelg(g) ==
  LET P == Parameters(g.gen)
      y == WOr(WAnd(At(P, g.s, g.i), High(P.w, P.p)), WAnd(At(P, g.s, g.i + 1), Low(P.w - P.p)))
      u == g.s[P.n + 1]
      v == WXor(WXor(WShr(y, 1), IF WEq(WAnd(y, 1), 1) THEN P.a ELSE W(0)),
                WXor(At(P, g.s, g.i + P.m), WXor(u, WShl(u, P.s2))))
      x == WXor(y, WXor(v, WShr(v, P.s3)))
      s == TLCEval([g.s EXCEPT ![g.i + 1] = x, ![P.n + 1] = v])
  IN <<TLCEval(WXor(WXor(x, WShl(x, P.s1)), WAnd(At(P, s, g.i + P.lag), P.b))), TLCEval([g EXCEPT !.s = s, !.i = (g.i + 1) % P.n])>>

RandPcg(g) ==
  LET x == WAnd(WShr(WXor(WShr(g.s, 18), g.s), 27), Low(32))
      r == WShr(g.s, 59)
      k == CHOOSE k \in 0 .. 31 : WEq(r, k)
  IN <<TLCEval(WOr(WShr(x, k), WAnd(WShl(x, (32 - k) % 32), Low(32)))), TLCEval([g EXCEPT !.s = PcgNext(Pcg_32, g)])>>

Rand(g) ==
  CASE Parameters(g.gen).kind = "mt" -> RandMt(g)
    [] Parameters(g.gen).kind = "melg" -> RandMelg(g)
    [] OTHER -> RandPcg(g)

\* the uniform deviate of a word: its leading (at most 53) bits, the largest of which gives one
Uniform(gen, word) ==
  LET w == Parameters(gen).w
  IN IF w > 53 THEN WReal(WShr(word, w - 53)) \oslash WReal(Low(53)) ELSE WReal(word) \oslash WReal(Low(w))

RECURSIVE Sequence(_, _)
Sequence(g, n) == IF n = 0 THEN <<>> ELSE LET r == Rand(g) IN <<r[1]>> \o Sequence(r[2], n - 1)
===============================================================================
