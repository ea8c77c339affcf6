------------------------------- MODULE DpfAES -------------------------------
(***************************************************************************)
(* The construction of DpfCore over the documented fixed-key AES hashes and *)
(* 128-bit seeds, with the values of a level drawn from the hashes of       *)
(* seed, seed+1, ...   A "level" is [ld, tl, L, epb, ..] of DpfParams.      *)
(***************************************************************************)
EXTENDS AES, DpfParams
KeyLeft  == << <<-1514757379,-1822488368,-157270555,1541421004>>, <<-292600986,2110802870,-1955563949,-795852385>>, <<905913319,1211066449,-1017176574,332357533>>, <<1803725100,598589821,-520953985,-214073118>>, <<-208695575,-803057772,818974955,-1007874039>>, <<-224273613,579048615,307430476,-776072123>>, <<-1667271191,-1105403570,-1404050174,2113007943>>, <<1012978696,-2105789114,775147588,1405231363>>, <<1200484725,-974011341,-339602313,-1207945868>>, <<-706637064,269506251,-70106436,1137866696>>, <<1039869755,770404848,-700894388,-1779743612>> >>
KeyRight == << <<-160477941,-487972896,-558169492,-275466578>>, <<313552708,-262508380,786526920,-1049246618>>, <<566817370,-778927362,-9179082,1040594000>>, <<1920638278,-1545068616,1553723278,1654512606>>, <<1875952631,-868688817,-1868352575,-230758369>>, <<-1353092740,1667345715,-205349134,33322733>>, <<-98188956,-1723569065,1787228837,1803191368>>, <<-1470489733,824080172,1536722313,820117953>>, <<-799112313,-515836757,-1160220382,-1975881501>>, <<-1054866483,543225702,-1699183036,277018279>>, <<-1645604679,-1114970145,657613211,934319932>> >>
KeyValue == << <<-1306714984,1185091841,-1940642845,94753112>>, <<-663348569,-1630205018,310454341,388299037>>, <<2089167932,-497866854,-254668833,-403245374>>, <<1494380154,-1153349152,1267942975,-1402621699>>, <<226698133,-1228772747,-45011894,1362402487>>, <<-1538114725,311447854,-272532124,-1091182125>>, <<-1023615613,-798192467,1068364233,-2124935142>>, <<1626388233,-1331938396,-1892562323,241818231>>, <<-1789178146,633828730,-1426669801,-1533057696>>, <<1158845832,1624629490,-903651355,1857829509>>, <<-762449858,-1302851380,2021347113,382170540>> >>
\* TLC precomputes only literals; checked in SelfTest.
SchedulesOk == KeyLeft = KeySchedule(<<41725,42422,2256,37727,15845,63136,14284,23520>>)
            /\ KeyRight = KeySchedule(<<19723,63087,8160,58090,620,57019,46766,61332>>)
            /\ KeyValue = KeySchedule(<<7320,45597,4353,18083,9187,35924,53592,1445>>)
AHL(s) == LET x == TLCEval(s) IN TLCEval(FixedKeyHash(KeyLeft, x))
AHR(s) == LET x == TLCEval(s) IN TLCEval(FixedKeyHash(KeyRight, x))
Blocks(l) == LET n == SampleBytes(l.L) IN IF l.epb > 1 THEN 1 ELSE (n + 15) \div 16
AHV(l, s) ==
   LET x == TLCEval(s)
       bs == TLCEval(FlattenSeq([j \in 1..Blocks(l) |->
                LET y == TLCEval(AddW(x, WordOf(j - 1, 128), 128))
                    z == TLCEval(FixedKeyHash(KeyValue, y)) IN TLCEval(BytesOfWord(z, 16))]))
   IN TLCEval([e \in 1..l.epb |-> ElementOf(l.L, bs, e - 1)])
ALow(s) == s[1] % 2
AClear(s) == TLCEval([s EXCEPT ![1] = @ - (@ % 2)])
AAdd(l, a, b) == AddV(l.L, a, b)
ANeg(l, a) == NegV(l.L, a)
AZero(l) == ZeroV(l.L)
Core == INSTANCE DpfCore WITH HL <- AHL, HR <- AHR, HV <- AHV, XorS <- Xor128, SeedBit <- ALow, Clear <- AClear,
                              GAdd <- AAdd, GNeg <- ANeg, GZero <- AZero

\* Bit i (from 1, topmost first) of the tree index of a point of the last level / of level l.
TreeBits(l, x) == [i \in 1..l.tl |-> BitW(x, l.ld - i)]
BlockIdx(l, x) == 1 + NatOf(SubW(x, ShlW(ShrW(x, l.ld - l.tl), l.ld - l.tl), 128))
PrefixOf(lv, alpha, h) == ShrW(alpha, LastOf(lv).ld - lv[h].ld)

\* The correction words and value corrections that seeds sa, sb prescribe.
Generate(lv, alpha, betas, sa, sb) ==
   LET n == LastOf(lv).tl
       vcAt(k, s, t) == LET hs == {h \in 1..Len(lv) : lv[h].tl = k} IN
          IF hs = {} THEN <<>>
          ELSE LET h == CHOOSE h \in hs : TRUE
               IN Core!ValueCorrection(lv[h], s, t, BlockIdx(lv[h], PrefixOf(lv, alpha, h)), betas[h])
       step(acc, i) ==
          LET g == TLCEval(Core!GenStep(BitW(alpha, LastOf(lv).ld - i), acc.s, acc.t))
          IN [s |-> g.s, t |-> g.t,
              cw |-> Append(acc.cw, [s |-> g.cw.s, c |-> g.cw.c, vc |-> vcAt(i - 1, acc.s, acc.t)])]
       end == FoldLeft(step, [s |-> << sa, sb >>, t |-> << 0, 1 >>, cw |-> <<>>], UpTo(n))
   IN [cw |-> end.cw, last |-> vcAt(n, end.s, end.t)]

\* A recorded key's share of position x of level h.
KeyShare(lv, k, h, x) ==
   LET l == lv[h]
       nd == Core!Walk(TreeBits(l, x), k.s, k.party, k.cw, 0)
       vm == VcOf(lv, k, h)
       vc == [e \in 1..Len(vm) |-> ValueLeaves(vm[e], l.ty)]
   IN Core!Share(l, k.party, nd[1], nd[2], vc, BlockIdx(l, x))
=============================================================================
