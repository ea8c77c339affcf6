------------------------------- MODULE DpfCore -------------------------------
(***************************************************************************)
(* The incremental DPF construction (Figures 11 and 12 of eprint 2020/1425  *)
(* with the corrections and the PRG evaluation optimisation documented in   *)
(* the code): key generation down the path of alpha, and evaluation, over   *)
(* abstract seeds, hash functions and value groups.                         *)
(* Hierarchy levels are numbered from 1; positions in a block from 1.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS HL(_), HR(_),          \* left and right child of a seed
          HV(_,_),               \* (level, seed) -> the values drawn from that seed
          XorS(_,_), SeedBit(_), Clear(_),
          GAdd(_,_,_), GNeg(_,_), GZero(_)     \* the group of a level

X2(a, b) == (a + b) % 2
H(dir, s) == IF dir = 0 THEN HL(s) ELSE HR(s)

\* One step of evaluation.  cw = [s, c |-> <<left, right>>].
Child(dir, s, t, cw) ==
   LET g == TLCEval(H(dir, s))
       h == TLCEval(IF t = 1 THEN XorS(g, cw.s) ELSE g)
   IN << TLCEval(Clear(h)), IF t = 1 THEN X2(SeedBit(h), cw.c[dir + 1]) ELSE SeedBit(h) >>
\* One step of key generation; s, t: seeds and control bits of both parties.
CorrectionWord(bit, s, t) ==
   LET l0 == TLCEval(HL(s[1]))  l1 == TLCEval(HL(s[2]))  r0 == TLCEval(HR(s[1]))  r1 == TLCEval(HR(s[2]))
   IN [s |-> IF bit = 0 THEN XorS(Clear(r0), Clear(r1)) ELSE XorS(Clear(l0), Clear(l1)),
       c |-> << X2(X2(SeedBit(l0), SeedBit(l1)), X2(bit, 1)), X2(X2(SeedBit(r0), SeedBit(r1)), bit) >>]
GenStep(bit, s, t) ==
   LET cw == TLCEval(CorrectionWord(bit, s, t))
       a == TLCEval(Child(bit, s[1], t[1], cw))
       b == TLCEval(Child(bit, s[2], t[2], cw))
   IN [cw |-> cw, s |-> << a[1], b[1] >>, t |-> << a[2], b[2] >>]
\* The value correction of level h for beta at position idx of the block.
ValueCorrection(h, s, t, idx, beta) ==
   LET A == TLCEval(HV(h, s[1]))  B == TLCEval(HV(h, s[2]))
       d(e) == LET x == GAdd(h, B[e], GNeg(h, A[e])) IN IF e = idx THEN GAdd(h, x, beta) ELSE x
   IN [e \in 1..Len(A) |-> IF t[2] = 1 THEN GNeg(h, d(e)) ELSE d(e)]
\* A party's share at position idx of the block below (s, t).
Share(h, party, s, t, vc, idx) ==
   LET v == TLCEval(HV(h, s)[idx])
       w == IF t = 1 THEN GAdd(h, v, vc[idx]) ELSE v
   IN IF party = 1 THEN GNeg(h, w) ELSE w
\* Down a path of directions through the correction words cws[from+1 ..].
Walk(path, s, t, cws, from) ==
   FoldLeft(LAMBDA acc, i : TLCEval(Child(path[i], acc[1], acc[2], cws[from + i])), << s, t >>, [i \in 1..Len(path) |-> i])
=============================================================================
