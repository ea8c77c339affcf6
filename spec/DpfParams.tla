------------------------------ MODULE DpfParams ------------------------------
(***************************************************************************)
(* Which parameter lists, values, keys and contexts of a DPF are valid, and *)
(* the shape that valid parameters give to the evaluation tree.             *)
(* Verdicts are sets of allowed answers: {TRUE}, {FALSE} or both where only *)
(* a floating point rounding decides.                                       *)
(***************************************************************************)
EXTENDS Groups

\* log2 in thousandths, from below and above.
LogLo == <<0,22,44,66,87,108,129,149,169,189,209,228,247,266,285,303,321,339,357,375,392,409,426,442,459,475,491,507,523,539,554,569,584,599,614,629,643,658,672,686,700,714,727,741,754,768,781,794,807,820,832,845,857,870,882,894,906,918,930,942,954,965,977,988,1000>>
LogHi == <<0,23,45,67,88,109,130,150,170,190,210,229,248,267,286,304,322,340,358,376,393,410,427,443,460,476,492,508,524,540,555,570,585,600,615,630,644,659,673,687,701,715,728,742,755,769,782,795,808,821,833,846,858,871,883,895,907,919,931,943,955,966,978,989,1000>>
NatLo == <<0,1000,1584,2000,2321,2584,2807,3000,3169,3321,3459,3584,3700,3807,3906,4000,4087,4169,4247,4321,4392,4459,4523,4584,4643,4700,4754,4807,4857,4906,4954,5000,5044,5087,5129,5169,5209,5247,5285,5321,5357,5392,5426,5459,5491,5523,5554,5584,5614,5643,5672,5700,5727,5754,5781,5807,5832,5857,5882,5906,5930,5954,5977,6000,6022,6044,6066,6087,6108,6129,6149,6169,6189,6209,6228,6247,6266,6285,6303,6321,6339,6357,6375,6392,6409,6426,6442,6459,6475,6491,6507,6523,6539,6554,6569,6584,6599,6614,6629,6643,6658,6672,6686,6700,6714,6727,6741,6754,6768,6781,6794,6807,6820,6832,6845,6857,6870,6882,6894,6906,6918,6930,6942,6954,6965,6977,6988,7000,7011,7022,7033,7044,7055,7066,7076,7087,7098,7108,7118,7129,7139,7149,7159,7169,7179,7189,7199,7209,7219,7228,7238,7247,7257,7266,7276,7285,7294,7303,7312,7321,7330,7339,7348,7357,7366,7375,7383,7392,7400,7409,7417,7426,7434,7442,7451,7459,7467,7475,7483,7491,7499,7507,7515,7523,7531,7539,7546,7554,7562,7569,7577,7584,7592,7599,7607,7614,7622,7629,7636,7643,7651,7658,7665,7672,7679,7686,7693,7700,7707,7714,7721,7727,7734,7741,7748,7754,7761,7768,7774,7781,7787,7794,7800,7807,7813,7820,7826,7832,7839,7845,7851,7857,7864,7870,7876,7882,7888,7894,7900,7906,7912,7918,7924,7930,7936,7942,7948,7954,7960,7965,7971,7977,7982,7988,7994,8000,8005,8011,8016>>
NatHi == <<0,1000,1585,2000,2322,2585,2808,3000,3170,3322,3460,3585,3701,3808,3907,4000,4088,4170,4248,4322,4393,4460,4524,4585,4644,4701,4755,4808,4858,4907,4955,5000,5045,5088,5130,5170,5210,5248,5286,5322,5358,5393,5427,5460,5492,5524,5555,5585,5615,5644,5673,5701,5728,5755,5782,5808,5833,5858,5883,5907,5931,5955,5978,6000,6023,6045,6067,6088,6109,6130,6150,6170,6190,6210,6229,6248,6267,6286,6304,6322,6340,6358,6376,6393,6410,6427,6443,6460,6476,6492,6508,6524,6540,6555,6570,6585,6600,6615,6630,6644,6659,6673,6687,6701,6715,6728,6742,6755,6769,6782,6795,6808,6821,6833,6846,6858,6871,6883,6895,6907,6919,6931,6943,6955,6966,6978,6989,7000,7012,7023,7034,7045,7056,7067,7077,7088,7099,7109,7119,7130,7140,7150,7160,7170,7180,7190,7200,7210,7220,7229,7239,7248,7258,7267,7277,7286,7295,7304,7313,7322,7331,7340,7349,7358,7367,7376,7384,7393,7401,7410,7418,7427,7435,7443,7452,7460,7468,7476,7484,7492,7500,7508,7516,7524,7532,7540,7547,7555,7563,7570,7578,7585,7593,7600,7608,7615,7623,7630,7637,7644,7652,7659,7666,7673,7680,7687,7694,7701,7708,7715,7722,7728,7735,7742,7749,7755,7762,7769,7775,7782,7788,7795,7801,7808,7814,7821,7827,7833,7840,7846,7852,7858,7865,7871,7877,7883,7889,7895,7901,7907,7913,7919,7925,7931,7937,7943,7949,7955,7961,7966,7972,7978,7983,7989,7995,8000,8006,8012,8017>>
Top7(w) == LET k == BitLen(w)      \* the seven leading bits, and whether bits below them are lost
           IN IF k <= 7 THEN NatOf(ShlW(Ext(w, 128), 7 - k)) ELSE NatOf(ShrW(Ext(w, 128), k - 7))
Exact7(w) == LET k == BitLen(w) IN k <= 7 \/ ShlW(ShrW(Ext(w, 128), k - 7), k - 7) = Ext(w, 128)
Log2Lo(w) == 1000 * (BitLen(w) - 1) + LogLo[Top7(w) - 63]
Log2Hi(w) == 1000 * (BitLen(w) - 1) + LogHi[Top7(w) - 63 + (IF Exact7(w) THEN 0 ELSE 1)]

Both(A, B) == {a /\ b : a \in A, b \in B}
All(s) == FoldLeft(LAMBDA acc, x : Both(acc, x), {TRUE}, s)
\* n values modulo N drawn from one block are 2^-sec close to uniform.
ModSecure(N, n, slo, shi) ==
   IF shi + Log2Hi(N) + NatHi[n] + NatHi[n + 1] <= 131000 THEN {TRUE}
   ELSE IF slo + Log2Lo(N) + NatLo[n] + NatLo[n + 1] > 131000 THEN {FALSE}
   ELSE {TRUE, FALSE}
RECURSIVE TypeSecure(_,_,_)
TypeSecure(t, slo, shi) ==
   CASE t.k = "mod" -> ModSecure(t.n.v, 1, slo, shi)
     [] t.k = "tup" ->
        LET mods == SelectSeq(t.t, LAMBDA e : e.k = "mod")
            oth == SelectSeq(t.t, LAMBDA e : e.k # "mod")
        IN IF \E i \in 1..Len(mods) : ~TypeEq(mods[i], mods[1]) THEN {FALSE}
           ELSE Both(IF mods = <<>> THEN {TRUE} ELSE ModSecure(mods[1].n.v, Len(mods), slo, shi),
                     All([i \in 1..Len(oth) |-> TypeSecure(oth[i], slo + NatLo[Len(oth)], shi + NatHi[Len(oth)])]))
     [] OTHER -> {TRUE}

\* par: one level as recorded: [ld, has, sec |-> [nan, m], ty].
EffSec(p) == IF p.sec.m = 0 THEN 40000 + 1000 * p.ld ELSE p.sec.m
LevelStructOk(ps, i) == LET p == ps[i] IN
   /\ p.ld >= 0 /\ p.ld <= 128
   /\ (i > 1 => p.ld > ps[i - 1].ld)
   /\ p.has = 1 /\ TypeOk(p.ty)
   /\ p.sec.nan = 0 /\ p.sec.m >= 0 /\ p.sec.m <= 128000
ParamsVerdict(ps) ==
   IF ps = <<>> \/ \E i \in 1..Len(ps) : ~LevelStructOk(ps, i) THEN {FALSE}
   ELSE All([i \in 1..Len(ps) |-> TypeSecure(ps[i].ty, EffSec(ps[i]), EffSec(ps[i]))])

--------------------------------------------------------------------------------
(* The tree.  Level i of the hierarchy ends at tree level tl; below a node  *)
(* of that tree level lie 2^(ld - tl) <= epb values, drawn from its hash.   *)
MaxI(a, b) == IF a > b THEN a ELSE b
LevelsOf(ps) ==
   FoldLeft(LAMBDA acc, p :
              LET L == Leaves(p.ty)
                  least == IF acc = <<>> THEN 0 ELSE acc[Len(acc)].tl + 1
              IN Append(acc, [ld |-> p.ld, tl |-> MaxI(least, p.ld - 7 + LogBits(L)), L |-> L,
                              epb |-> PerBlock(L), ty |-> p.ty, sec |-> p.sec]),
            <<>>, ps)
LastOf(lv) == lv[Len(lv)]

--------------------------------------------------------------------------------
(* Keys: as recorded, [seed, party, cw |-> <<[seed, vc, ..]>>, last]. *)
KeyOk(lv, k) ==
   /\ k.seed = 1 /\ k.party \in {0, 1}
   /\ Len(k.last) > 0
   /\ Len(k.cw) = LastOf(lv).tl
   /\ \A h \in 1..(Len(lv) - 1) : Len(k.cw[lv[h].tl + 1].vc) > 0
VcOf(lv, k, h) == IF h = Len(lv) THEN k.last ELSE k.cw[lv[h].tl + 1].vc
\* The value correction of level h is usable.
VcOk(lv, k, h) == LET vc == VcOf(lv, k, h) IN
   /\ Len(vc) = lv[h].epb
   /\ \A e \in 1..Len(vc) : ValueOk(vc[e], lv[h].ty)
\* The layout of a generated key: determined by the parameters alone.
KeyLayout(lv, k) ==
   /\ KeyOk(lv, k)
   /\ \A i \in 1..Len(k.cw) : k.cw[i].seed = 1
   /\ \A i \in 1..Len(k.cw) :
        \/ \E h \in 1..(Len(lv) - 1) : lv[h].tl + 1 = i
        \/ Len(k.cw[i].vc) = 0
   /\ \A h \in 1..Len(lv) : VcOk(lv, k, h)

--------------------------------------------------------------------------------
(* Contexts: as recorded, [par, haskey, key, prev, np, pl]. *)
SecEq(a, b, ld) == \/ a.nan = 0 /\ b.nan = 0 /\ a.m = b.m
                   \/ a.m = 0 /\ b.m = 40000 + 1000 * ld
                   \/ b.m = 0 /\ a.m = 40000 + 1000 * ld
CtxParOk(lv, par) == /\ Len(par) = Len(lv)
                     /\ \A i \in 1..Len(lv) : /\ par[i].ld = lv[i].ld
                                              /\ TypeEq(par[i].ty, lv[i].ty)
                                              /\ SecEq(par[i].sec, lv[i].sec, lv[i].ld)
CtxOk(lv, c) == /\ CtxParOk(lv, c.par)
                /\ c.haskey = 1 /\ KeyOk(lv, c.key)
                /\ (c.np > 0 => c.pl >= 0 /\ c.pl <= c.prev /\ c.pl < Len(lv))
=============================================================================
