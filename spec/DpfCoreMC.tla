------------------------------ MODULE DpfCoreMC ------------------------------
(***************************************************************************)
(* The construction of DpfCore on toy seeds (W-bit numbers), toy hashes and *)
(* the groups Z_m: key generation level by level, then every evaluation.    *)
(* Off the path of alpha the parties agree; on it their control bits        *)
(* differ; their shares add up to the point function at every level.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Bitwise
CONSTANTS W,            \* seeds are 0..2^W-1
          Levels,       \* <<[ld, tl, m, epb]>>
          Coefs         \* set of <<a,b,c,d>>: hash coefficients to explore

LevA == << [ld |-> 0, tl |-> 0, m |-> 3, epb |-> 2], [ld |-> 2, tl |-> 1, m |-> 4, epb |-> 2], [ld |-> 3, tl |-> 2, m |-> 2, epb |-> 2] >>
LevB == << [ld |-> 3, tl |-> 1, m |-> 4, epb |-> 4] >>
LevC == << [ld |-> 1, tl |-> 1, m |-> 2, epb |-> 1], [ld |-> 4, tl |-> 4, m |-> 3, epb |-> 1] >>
LevD == << [ld |-> 0, tl |-> 0, m |-> 2, epb |-> 8], [ld |-> 1, tl |-> 1, m |-> 3, epb |-> 8], [ld |-> 2, tl |-> 2, m |-> 4, epb |-> 4], [ld |-> 4, tl |-> 3, m |-> 2, epb |-> 2] >>
Coef1 == { <<2, 5, 7, 11>>, <<0, 1, 0, 3>>, <<4, 3, 6, 9>> }
Coef2 == {1, 4} \X {0, 5} \X {2, 7} \X {3, 6, 13}
VARIABLES co,           \* the hash coefficients
          alpha, beta,  \* beta: one value per level
          lvl,          \* tree levels generated so far
          s, t,         \* both parties on the path of alpha
          root,         \* initial seeds
          cws, vcs,     \* correction words; value corrections per hierarchy level
          done
vars == << co, alpha, beta, lvl, s, t, root, cws, vcs, done >>

N == 2^W
MHL(x) == (co[1] * x * x + co[2] * x + 3) % N
MHR(x) == (co[3] * x * x + co[2] * x + co[4]) % N
MHV(h, x) == [e \in 1..Levels[h].epb |-> (co[4] * x + x * x * e + co[1] * h) % Levels[h].m]
MXor(a, b) == a ^^ b
MLow(a) == a % 2
MClear(a) == a - (a % 2)
MAdd(h, a, b) == (a + b) % Levels[h].m
MNeg(h, a) == (Levels[h].m - a) % Levels[h].m
MZero(h) == 0
C == INSTANCE DpfCore WITH HL <- MHL, HR <- MHR, HV <- MHV, XorS <- MXor, SeedBit <- MLow, Clear <- MClear,
                           GAdd <- MAdd, GNeg <- MNeg, GZero <- MZero
D == Len(Levels)
Deep == Levels[D]
\* Bit i (1 = topmost) of the path to tree level Deep.tl.
PathBit(i) == (alpha \div 2^(Deep.ld - i)) % 2
Prefix(h) == alpha \div 2^(Deep.ld - Levels[h].ld)
IdxIn(h, x) == 1 + (x % (2^(Levels[h].ld - Levels[h].tl)))
Betas == {b \in [1..D -> 0..3] : \A h \in 1..D : b[h] < Levels[h].m}

Init == /\ co \in Coefs
        /\ alpha \in 0..(2^Deep.ld - 1)
        /\ beta \in Betas
        /\ root \in {<<a, b>> : a \in {0, 1, N - 1}, b \in {2, 5, N - 1}}
        /\ s = root /\ t = << 0, 1 >> /\ lvl = 0 /\ cws = << >> /\ vcs = << >> /\ done = FALSE
ValuesHere(k) == {h \in 1..D : Levels[h].tl = k}
WithVc(k) == IF ValuesHere(k) = {} THEN vcs
             ELSE LET h == CHOOSE h \in ValuesHere(k) : TRUE
                  IN Append(vcs, C!ValueCorrection(h, s, t, IdxIn(h, Prefix(h)), beta[h]))
Step == /\ lvl < Deep.tl
        /\ vcs' = WithVc(lvl)
        /\ LET g == C!GenStep(PathBit(lvl + 1), s, t)
           IN s' = g.s /\ t' = g.t /\ cws' = Append(cws, g.cw)
        /\ lvl' = lvl + 1
        /\ UNCHANGED << co, alpha, beta, root, done >>
Finish == /\ lvl = Deep.tl /\ ~done
          /\ vcs' = WithVc(lvl) /\ done' = TRUE
          /\ UNCHANGED << co, alpha, beta, root, lvl, s, t, cws >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

Bits(x, n) == [i \in 1..n |-> (x \div 2^(n - i)) % 2]
Node(p, x, n) == C!Walk(Bits(x, n), root[p + 1], p, cws, 0)
OnPath == << s[1], t[1] >> = Node(0, alpha \div 2^(Deep.ld - lvl), lvl)
       /\ << s[2], t[2] >> = Node(1, alpha \div 2^(Deep.ld - lvl), lvl)
       /\ t[1] # t[2]
OffPath == \A x \in 0..(2^lvl - 1) : x # alpha \div 2^(Deep.ld - lvl) => Node(0, x, lvl) = Node(1, x, lvl)
ShareAt(h, p, x) ==
   LET nd == Node(p, x \div 2^(Levels[h].ld - Levels[h].tl), Levels[h].tl)
   IN C!Share(h, p, nd[1], nd[2], vcs[h], IdxIn(h, x))
Reconstructs == done => \A h \in 1..D : \A x \in 0..(2^Levels[h].ld - 1) :
   MAdd(h, ShareAt(h, 0, x), ShareAt(h, 1, x)) = (IF x = Prefix(h) THEN beta[h] ELSE 0)
=============================================================================
