------------------------------ MODULE DcfTrace ------------------------------
(***************************************************************************)
(* Recorded uses of comparison functions and of the interval gate.          *)
(* A comparison function on n bits is an incremental DPF with levels of     *)
(* 0..n-1 bits whose value is beta on the levels where alpha has a one bit, *)
(* and is evaluated by adding up the levels where x has a zero bit.         *)
(***************************************************************************)
EXTENDS DpfAES, Streams, Wire, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dcfs, keys, prs, mics, mkeys, mprs
vars == << l, dcfs, keys, prs, mics, mkeys, mprs >>
Ev == Trace[l]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Keep(vs) == UNCHANGED vs
Agrees(code, v) == IF code = 0 THEN TRUE \in v ELSE FALSE \in v
Init == l = 1 /\ dcfs = << >> /\ keys = << >> /\ prs = << >> /\ mics = << >> /\ mkeys = << >> /\ mprs = << >>
New == Ev.e = "new" /\ dcfs' = << >> /\ keys' = << >> /\ prs' = << >> /\ mics' = << >> /\ mkeys' = << >> /\ mprs' = << >>
Below(x, n) == n >= 128 \/ IsZero(ShrW(x, n))
U128 == [k |-> "int", b |-> 128]

Expand(p) == [i \in 1..p.ld |-> [ld |-> i - 1, has |-> p.has, sec |-> p.sec, ty |-> p.ty]]
DcfVerdict(p) == IF p.ld < 1 \/ p.ld > 128 THEN {FALSE} ELSE ParamsVerdict(Expand(p))
Create == /\ Ev.e = "dcf" /\ Keep(<< keys, prs, mics, mkeys, mprs >>)
          /\ Agrees(Ev.code, DcfVerdict(Ev.par))
          /\ (Ev.par.ld < 1 \/ Ev.par.ld > 128) => Ev.code = INVALID
          /\ dcfs' = IF Ev.code = 0
                     THEN Put(dcfs, Ev.id, [n |-> Ev.par.ld, ty |-> Ev.par.ty, reg |-> Ev.reg, lv |-> LevelsOf(Expand(Ev.par))])
                     ELSE dcfs
Gen == /\ Ev.e = "gen" /\ Keep(<< mics, mkeys, mprs >>)
       /\ LET d == dcfs[Ev.d]
              ok == ValueOk(Ev.bv, d.ty) /\ Below(Ev.alpha, d.n)
              reg == d.reg = 1 \/ Ev.tmpl = 1
          IN /\ (Ev.code = 0) <=> (ok /\ reg)
             /\ ~ok /\ reg => Ev.code = INVALID
             /\ ok /\ ~reg => Ev.code = FAILED_PRECONDITION
             /\ Ev.code = 0 => /\ Ev.ka.party = 0 /\ Ev.kb.party = 1
                               /\ KeyLayout(d.lv, Ev.ka) /\ KeyLayout(d.lv, Ev.kb)
                               /\ Ev.ka.cw = Ev.kb.cw /\ Ev.ka.last = Ev.kb.last
             /\ IF Ev.code = 0
                THEN /\ keys' = Put(Put(keys, 2 * Ev.id, [d |-> Ev.d, k |-> Ev.ka, full |-> Ev.full]),
                                    2 * Ev.id + 1, [d |-> Ev.d, k |-> Ev.kb, full |-> Ev.full])
                     /\ prs' = Put(prs, Ev.id, [d |-> Ev.d, alpha |-> Ev.alpha, beta |-> ValueLeaves(Ev.bv, d.ty)])
                ELSE Keep(<< keys, prs >>)
             /\ dcfs' = IF Ev.tmpl = 1 THEN Put(dcfs, Ev.d, [d EXCEPT !.reg = 1]) ELSE dcfs
MutKey == /\ Ev.e = "mkey" /\ Keep(<< dcfs, prs, mics, mkeys, mprs >>)
          /\ keys' = Put(keys, Ev.k, [d |-> keys[Ev.from].d, k |-> Ev.key, full |-> 0])

AllValid(L, out) == \A i \in 1..Len(out) : ValidV(L, out[i])
KeyFits(lv, k) == KeyOk(lv, k) /\ \A h \in 1..Len(lv) : VcOk(lv, k, h)
Eval == /\ Ev.e = "eval" /\ Keep(<< dcfs, keys, prs, mics, mkeys, mprs >>)
        /\ LET d == dcfs[Ev.d]
               n == Len(Ev.ks)
               one(i) == KeyFits(d.lv, keys[Ev.ks[i]].k) /\ Below(Ev.xs[i], d.n) /\ TypeEq(Ev.ty, d.ty)
               ok == Len(Ev.xs) = n /\ Ev.osz = n /\ \A i \in 1..n : one(i)
           IN /\ IF ok \/ (n = 0 /\ Len(Ev.xs) = 0 /\ Ev.osz = 0)
                 THEN (Ev.code = 0 \/ (n = 0 /\ ~TypeEq(Ev.ty, d.ty)))
                 ELSE Ev.code = INVALID
              /\ \A i \in 1..Len(Ev.oc) : Ev.oc[i] = (IF one(i) THEN 0 ELSE INVALID)
              /\ Ev.code = 0 => /\ Len(Ev.out) = n /\ AllValid(d.lv[1].L, Ev.out)
                                /\ Ev.out = Ev.one
PairX == /\ Ev.e = "pair" /\ Keep(<< dcfs, keys, prs, mics, mkeys, mprs >>)
         /\ LET p == prs[Ev.id]
                L == dcfs[p.d].lv[1].L
            IN /\ Ev.ca = 0 /\ Ev.cb = 0
               /\ Len(Ev.a) = Len(Ev.xs) /\ Len(Ev.b) = Len(Ev.xs)
               /\ \A i \in 1..Len(Ev.xs) :
                    AddV(L, Ev.a[i], Ev.b[i]) = (IF LtW(Ev.xs[i], p.alpha) THEN p.beta ELSE ZeroV(L))

--------------------------------------------------------------------------------
(* The gate: group Z_2^n, intervals as recorded.                            *)
Bound(i) == IF i.c = 64 THEN i.v \o << 0, 0, 0, 0 >> ELSE i.v
Wide(i) == IF Len(i.v) = 8 THEN i.v ELSE Bound(i)
MicOk(n, iv) == /\ n \in 1..127
                /\ \A i \in 1..Len(iv) : /\ iv[i].hl = 1 /\ iv[i].hu = 1
                                         /\ IntSet(iv[i].lo) /\ IntSet(iv[i].hi)
                                         /\ Below(Wide(iv[i].lo), n) /\ Below(Wide(iv[i].hi), n)
                                         /\ ~LtW(Wide(iv[i].hi), Wide(iv[i].lo))
MicLevels(n) == LevelsOf(Expand([ld |-> n, has |-> 1, sec |-> [nan |-> 0, m |-> 0], ty |-> U128]))
CreateMic == /\ Ev.e = "mic" /\ Keep(<< dcfs, keys, prs, mkeys, mprs >>)
             /\ Ev.code = (IF MicOk(Ev.n, Ev.iv) THEN 0 ELSE INVALID)
             /\ mics' = IF Ev.code # 0 THEN mics
                        ELSE Put(mics, Ev.id, [n |-> Ev.n, lv |-> MicLevels(Ev.n),
                                               iv |-> [i \in 1..Len(Ev.iv) |-> << Wide(Ev.iv[i].lo), Wide(Ev.iv[i].hi) >>]])
SharesSet(k) == \A i \in 1..Len(k.z) : IntSet(k.z[i])
GenMic == /\ Ev.e = "mgen" /\ Keep(<< dcfs, keys, prs, mics >>)
          /\ LET m == mics[Ev.m]
                 ok == /\ Len(Ev.rout) = Len(m.iv) /\ Below(Ev.rin, m.n)
                       /\ \A i \in 1..Len(Ev.rout) : Below(Ev.rout[i], m.n)
             IN /\ Ev.code = (IF ok THEN 0 ELSE INVALID)
                /\ Ev.code = 0 => /\ Ev.ka.has = 1 /\ Ev.kb.has = 1
                                  /\ Ev.ka.key.party = 0 /\ Ev.kb.key.party = 1
                                  /\ Len(Ev.ka.z) = Len(m.iv) /\ Len(Ev.kb.z) = Len(m.iv)
                                  /\ SharesSet(Ev.ka) /\ SharesSet(Ev.kb)
                /\ IF Ev.code = 0
                   THEN /\ mkeys' = Put(Put(mkeys, 2 * Ev.id, [m |-> Ev.m, k |-> Ev.ka, full |-> Ev.full]), 2 * Ev.id + 1, [m |-> Ev.m, k |-> Ev.kb, full |-> Ev.full])
                        /\ mprs' = Put(mprs, Ev.id, [m |-> Ev.m, rin |-> Ev.rin, rout |-> Ev.rout])
                   ELSE Keep(<< mkeys, mprs >>)
MutMKey == /\ Ev.e = "mmkey" /\ Keep(<< dcfs, keys, prs, mics, mprs >>)
           /\ mkeys' = Put(mkeys, Ev.k, [mkeys[Ev.from] EXCEPT !.k = Ev.key])
MKeyFits(m, k) == k.has = 1 /\ Len(k.z) = Len(m.iv) /\ (Len(m.iv) > 0 => KeyFits(m.lv, k.key) /\ SharesSet(k))
\* Nothing is computed without intervals: a bad comparison key may go unnoticed.
MVerdict(m, k, x) == IF Below(x, m.n) /\ MKeyFits(m, k) THEN {TRUE}
                     ELSE IF Len(m.iv) = 0 /\ Len(k.z) = 0 /\ Below(x, m.n) THEN {TRUE, FALSE} ELSE {FALSE}
AgreesI(code, v) == IF code = 0 THEN TRUE \in v ELSE code = INVALID /\ FALSE \in v
EvalMic == /\ Ev.e = "meval" /\ Keep(<< dcfs, keys, prs, mics, mkeys, mprs >>)
           /\ LET m == mics[Ev.m]
                  n == Len(Ev.ks)
                  v(i) == MVerdict(m, mkeys[Ev.ks[i]].k, Ev.xs[i])
              IN /\ AgreesI(Ev.code, IF Len(Ev.xs) # n \/ \E i \in 1..n : v(i) = {FALSE} THEN {FALSE}
                                     ELSE IF \A i \in 1..n : v(i) = {TRUE} THEN {TRUE} ELSE {TRUE, FALSE})
                 /\ \A i \in 1..Len(Ev.oc) : AgreesI(Ev.oc[i], v(i))
                 /\ Ev.code = 0 => /\ Ev.out = FlattenSeq(Ev.one)
                                   /\ \A i \in 1..n : Len(Ev.one[i]) = Len(m.iv)
                                   /\ \A i \in 1..Len(Ev.out) : Below(Ev.out[i], m.n)
Mask(x, n) == IF n >= 128 THEN x ELSE SubW(x, ShlW(ShrW(x, n), n), 128)
AddN(a, b, n) == Mask(AddW(a, b, 128), n)
InInterval(iv, x) == ~LtW(x, iv[1]) /\ ~LtW(iv[2], x)
\* What the outputs of pair p at masked input x must add up to, for interval j.
Wanted(m, p, x, j) == LET u == Mask(SubW(x, p.rin, 128), m.n)
                      IN AddN(p.rout[j], IF InInterval(m.iv[j], u) THEN << 1, 0, 0, 0, 0, 0, 0, 0 >> ELSE Zero128, m.n)
PairMic == /\ Ev.e = "mpair" /\ Keep(<< dcfs, keys, prs, mics, mkeys, mprs >>)
           /\ LET m == mics[Ev.m]
                  k == Len(m.iv)
              IN /\ Ev.ca = 0 /\ Ev.cb = 0
                 /\ Len(Ev.a) = Len(Ev.ids) * k /\ Len(Ev.b) = Len(Ev.a)
                 /\ \A i \in 1..Len(Ev.ids) : \A j \in 1..k :
                      LET at == (i - 1) * k + j
                      IN /\ Below(Ev.a[at], m.n) /\ Below(Ev.b[at], m.n)
                         /\ AddN(Ev.a[at], Ev.b[at], m.n) = Wanted(m, mprs[Ev.ids[i]], Ev.xs[i], j)
\* Repeated key pairs: seeds and mask shares are fresh, and each party's are unrelated to the other's seeds.
FullRankN(ws, w) == Rank([i \in 1..Len(ws) |-> Append(ws[i], 1)]) = w + 1
FreshMic == /\ Ev.e = "mfresh" /\ Keep(<< dcfs, keys, prs, mics, mkeys, mprs >>)
            /\ Ev.code = 0
            /\ AllDistinct(Ev.sa \o Ev.sb) /\ FullRank(Ev.sa, 128) /\ FullRank(Ev.sb, 128)
            /\ LET n == mics[Ev.m].n IN
               /\ \A zs \in {Ev.za, Ev.zb} :      \* zs[i]: the shares for interval i, one for each key pair
                    /\ n >= 64 => AllDistinct(FlattenSeq(zs))
                    /\ \A i \in 1..Len(zs) : FullRankN([j \in 1..Len(zs[i]) |-> Mask(zs[i][j], n)], n)
                    /\ \A i \in 2..Len(zs) : FullRankN([j \in 1..Len(zs[i]) |-> Xor128(Mask(zs[i][j], n), Mask(zs[1][j], n))], n)

--------------------------------------------------------------------------------
(* Keys recorded in full: exactly the bits of the construction.             *)
SameValues(lvl, got, want) == Len(got) = Len(want) /\ \A e \in 1..Len(got) : ValueLeaves(got[e], lvl.ty) = want[e]
LevelAtTree(lv, k) == CHOOSE h \in 1..Len(lv) : lv[h].tl = k
KeysExact(lv, n, alpha, b, ka, kb) ==
   LET betas == [h \in 1..n |-> IF BitW(alpha, n - h) = 1 THEN b ELSE ZeroV(lv[1].L)]
       g == TLCEval(Generate(lv, ShrW(alpha, 1), betas, ka.s, kb.s))
   IN /\ \A i \in 1..Len(ka.cw) : /\ ka.cw[i].s = g.cw[i].s /\ ka.cw[i].c = g.cw[i].c
                                  /\ ka.cw[i].vc = <<>> \/ SameValues(lv[LevelAtTree(lv, i - 1)], ka.cw[i].vc, g.cw[i].vc)
      /\ SameValues(LastOf(lv), ka.last, g.last)
GenExact(e) == LET d == dcfs[e.d] IN KeysExact(d.lv, d.n, e.alpha, ValueLeaves(e.bv, d.ty), e.ka, e.kb)
DcfShare(d, k, x) ==
   LET lv == d.lv
       step(acc, h) ==
          LET y == ShrW(x, d.n - h + 1)          \* the prefix of x at level h
              from == IF h = 1 THEN 0 ELSE lv[h - 1].tl
              nd == TLCEval(Core!Walk(SubSeq(TreeBits(lv[h], y), from + 1, lv[h].tl), acc[1], acc[2], k.cw, from))
              vm == VcOf(lv, k, h)
          IN << nd[1], nd[2],
                IF BitW(x, d.n - h) = 1 THEN acc[3]
                ELSE AddV(lv[h].L, acc[3], Core!Share(lv[h], k.party, nd[1], nd[2],
                                                      [e \in 1..Len(vm) |-> ValueLeaves(vm[e], lv[h].ty)], BlockIdx(lv[h], y))) >>
   IN FoldLeft(LAMBDA acc, h : TLCEval(step(acc, h)), << k.s, k.party, ZeroV(lv[1].L) >>, UpTo(d.n))[3]
\* Figure 14 of eprint 2020/1392: Gen, lines 1-7.
One128 == << 1, 0, 0, 0, 0, 0, 0, 0 >>
If1(c) == IF c THEN One128 ELSE Zero128
SubN(a, b, n) == Mask(SubW(a, b, 128), n)
MGenExact(e) ==
   LET m == mics[e.m]
       n == m.n
       z(i) == LET p == m.iv[i][1]
                   q == m.iv[i][2]
                   qp == AddN(q, One128, n)
                   ap == AddN(p, e.rin, n)
                   aq == AddN(q, e.rin, n)
                   aqp == AddN(qp, e.rin, n)
                   up == AddN(AddN(AddN(e.rout[i], If1(LtW(aq, ap)), n), If1(LtW(qp, aqp)), n), If1(IsZero(AddN(aq, One128, n))), n)
               IN SubN(up, If1(LtW(p, ap)), n)
   IN /\ KeysExact(m.lv, n, SubN(e.rin, One128, n), << One128 >>, e.ka.key, e.kb.key)
      /\ e.ka.key.cw = e.kb.key.cw /\ e.ka.key.last = e.kb.key.last
      /\ \A i \in 1..Len(m.iv) : /\ IntSet(e.ka.z[i]) /\ IntSet(e.kb.z[i])
                                 /\ Below(Wide(e.ka.z[i]), n) /\ Below(Wide(e.kb.z[i]), n)
                                 /\ AddN(Wide(e.ka.z[i]), Wide(e.kb.z[i]), n) = z(i)
      /\ e.wa = WireMicKey(e.ka) /\ e.wb = WireMicKey(e.kb)
\* Eval, lines 1-9: one party's share for interval j.
MicShare(m, k, x, j) ==
   LET n == m.n
       p == m.iv[j][1]
       qp == AddN(m.iv[j][2], One128, n)
       d == [n |-> n, lv |-> m.lv]
       s(y) == Mask(DcfShare(d, k.key, SubN(SubN(x, One128, n), y, n))[1], n)
       base == Mask(SubW(AddW(s(qp), Mask(Wide(k.z[j]), n), 128), s(p), 128), n)
   IN IF k.key.party = 0 THEN base ELSE SubN(AddN(base, If1(LtW(p, x)), n), If1(LtW(qp, x)), n)
Prev == Trace[l - 1]
Exact ==
   IF l = 1 THEN TRUE
   ELSE IF Prev.e \notin {"gen", "eval", "mgen", "meval"} THEN TRUE
   ELSE IF Prev.code # 0 THEN TRUE
   ELSE CASE Prev.e = "gen" -> Prev.full = 1 => /\ GenExact(Prev)
                                                   /\ Prev.ka.w = WireKey(Prev.ka) /\ Prev.w = WireDcfKey(Prev.ka)
          [] Prev.e = "eval" -> \A i \in 1..Len(Prev.ks) : keys[Prev.ks[i]].full = 1 =>
                Prev.out[i] = DcfShare(dcfs[Prev.d], keys[Prev.ks[i]].k, Prev.xs[i])
          [] Prev.e = "mgen" -> Prev.full = 1 => MGenExact(Prev)
          [] Prev.e = "meval" -> \A i \in 1..Len(Prev.ks) : mkeys[Prev.ks[i]].full = 1 =>
                \A j \in 1..Len(Prev.one[i]) : Prev.one[i][j] = MicShare(mics[Prev.m], mkeys[Prev.ks[i]].k, Prev.xs[i], j)
Next == l <= Len(Trace) /\ l' = l + 1 /\
        (\/ New \/ Create \/ Gen \/ MutKey \/ Eval \/ PairX
         \/ CreateMic \/ GenMic \/ MutMKey \/ EvalMic \/ PairMic \/ FreshMic)
Spec == Init /\ [][Next]_vars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
