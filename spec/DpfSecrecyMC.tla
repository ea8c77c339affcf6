---------------------------- MODULE DpfSecrecyMC ----------------------------
(***************************************************************************)
(* What one key shows of alpha and the values: nothing, if the hashes of a  *)
(* seed one does not know are uniform and independent.  Step by step: seen  *)
(* by one party (whose own hashes are fixed), correction word and the other *)
(* party's next seed are a bijective image of the other party's hashes,     *)
(* onto a set that depends neither on the bit of alpha nor on anything else;*)
(* likewise the value correction and the other party's drawn values.  So    *)
(* given the own key every choice is equally likely, and the next step      *)
(* starts from a uniform seed again.  Both parties, all own states.         *)
(* A "seed" is the record of its hashes here, its children are plain words. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Bitwise
CONSTANTS W,        \* words of W bits, lowest bit the control bit
          M, Epb    \* values: blocks of Epb elements of Z_M
VARIABLES me, own, t, bit, idx, beta
vars == << me, own, t, bit, idx, beta >>
Words == 0..(2^W - 1)
Blocks == [1..Epb -> 0..(M - 1)]
SHL(s) == s.l
SHR(s) == s.r
SHV(h, s) == s.v
SXor(a, b) == a ^^ b
SLow(a) == a % 2
SClear(a) == a - (a % 2)
SAdd(h, a, b) == (a + b) % M
SNeg(h, a) == (M - a) % M
SZero(h) == 0
C == INSTANCE DpfCore WITH HL <- SHL, HR <- SHR, HV <- SHV, XorS <- SXor, SeedBit <- SLow, Clear <- SClear,
                           GAdd <- SAdd, GNeg <- SNeg, GZero <- SZero
NoBlock == [e \in 1..Epb |-> 0]
\* On the path the control bits differ: t is party 0's.
Init == /\ me \in {1, 2} /\ t \in {0, 1}
        /\ \/ own \in [l : Words, r : Words, v : {NoBlock}] /\ bit \in {0, 1} /\ idx = 0 /\ beta = 0
           \/ own \in [l : {0}, r : {0}, v : Blocks] /\ bit = 0 /\ idx \in 1..Epb /\ beta \in 0..(M - 1)
Spec == Init /\ [][UNCHANGED vars]_vars
Both(o) == IF me = 1 THEN << own, o >> ELSE << o, own >>
Ts == << t, 1 - t >>
Clears == {a \in Words : a % 2 = 0}
StepHides ==
   LET others == [l : Words, r : Words, v : {NoBlock}]
       seen(o) == LET g == C!GenStep(bit, Both(o), Ts) IN << g.cw.s, g.cw.c[1], g.cw.c[2], g.s[3 - me] >>
   IN idx = 0 => {seen(o) : o \in others} = Clears \X {0, 1} \X {0, 1} \X Clears
              /\ Cardinality(others) = Cardinality(Clears \X {0, 1} \X {0, 1} \X Clears)
ValueHides ==
   LET others == [l : {0}, r : {0}, v : Blocks]
       vc(o) == LET s == Both(o) IN C!ValueCorrection(1, s, Ts, idx, beta)
   IN idx # 0 => {vc(o) : o \in others} = Blocks
=============================================================================
