------------------------------ MODULE DpfTrace ------------------------------
(***************************************************************************)
(* Accepts a recorded use of the DPF interface iff every call did what the  *)
(* specification prescribes.                                                *)
(***************************************************************************)
EXTENDS DpfAES, Streams, Wire, Json, IOUtils
Cx == INSTANCE DpfContext WITH Shr <- ShrW, IsZ <- IsZero
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,      \* next event
          dps,    \* DPF objects: id -> [lv, regs]
          keys,   \* id -> [d, k (as recorded), full]
          prs,    \* key pairs: id -> [d, alpha, betas, c (context of the pair walk)]
          ctxs    \* id -> [d, k, full, c]
vars == << l, dps, keys, prs, ctxs >>
Ev == Trace[l]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Keep(vs) == UNCHANGED vs
\* code for a verdict set
Agrees(code, v) == IF code = OK THEN TRUE \in v ELSE FALSE \in v

Init == l = 1 /\ dps = << >> /\ keys = << >> /\ prs = << >> /\ ctxs = << >>
New == Ev.e = "new" /\ dps' = << >> /\ keys' = << >> /\ prs' = << >> /\ ctxs' = << >>

Create == /\ Ev.e = "dpf" /\ Keep(<< keys, prs, ctxs >>)
          /\ LET v == ParamsVerdict(Ev.par)
             IN /\ Agrees(Ev.code, v)
                /\ Ev.code # OK => Ev.code \in {INVALID, UNIMPLEMENTED}
                /\ (\E i \in 1..Len(Ev.par) : ~LevelStructOk(Ev.par, i)) => Ev.code = INVALID
          /\ dps' = IF Ev.code = OK THEN Put(dps, Ev.id, [lv |-> LevelsOf(Ev.par), regs |-> Ev.regs]) ELSE dps

--------------------------------------------------------------------------------
SameCw(a, b) == a.cw = b.cw /\ a.last = b.last
SameValues(lvl, got, want) == /\ Len(got) = Len(want)
                              /\ \A e \in 1..Len(got) : ValueLeaves(got[e], lvl.ty) = want[e]
LevelAtTree(lv, k) == CHOOSE h \in 1..Len(lv) : lv[h].tl = k
Prescribed(lv, alpha, betas, ka, kb) ==
   LET g == Generate(lv, alpha, betas, ka.s, kb.s)
   IN /\ \A i \in 1..Len(ka.cw) : /\ ka.cw[i].s = g.cw[i].s
                                  /\ ka.cw[i].c = g.cw[i].c
                                  /\ ka.cw[i].vc = <<>> \/ SameValues(lv[LevelAtTree(lv, i - 1)], ka.cw[i].vc, g.cw[i].vc)
      /\ SameValues(LastOf(lv), ka.last, g.last)
GenOk(lv, alpha, bv) == /\ Len(bv) = Len(lv)
                        /\ \A h \in 1..Len(lv) : ValueOk(bv[h], lv[h].ty)
                        /\ Cx!InDomain(lv, alpha, Len(lv))
Gen == /\ Ev.e = "gen" /\ Keep(<< dps, ctxs >>)
       /\ LET d == dps[Ev.d]
              lv == d.lv
              ok == GenOk(lv, Ev.alpha, Ev.bv)
              reg == \A h \in 1..Len(lv) : d.regs[h] = 1
          IN /\ (Ev.code = OK) <=> (ok /\ reg)
             /\ ~ok /\ reg => Ev.code = INVALID
             /\ ok /\ ~reg => Ev.code = FAILED_PRECONDITION
             /\ Ev.code = OK =>
                   /\ Ev.ka.party = 0 /\ Ev.kb.party = 1
                   /\ KeyLayout(lv, Ev.ka) /\ KeyLayout(lv, Ev.kb)
                   /\ SameCw(Ev.ka, Ev.kb)
             /\ IF Ev.code = OK
                THEN /\ keys' = Put(Put(keys, 2 * Ev.id, [d |-> Ev.d, k |-> Ev.ka, full |-> Ev.full]),
                                    2 * Ev.id + 1, [d |-> Ev.d, k |-> Ev.kb, full |-> Ev.full])
                     /\ prs' = Put(prs, Ev.id, [d |-> Ev.d, alpha |-> Ev.alpha, c |-> Cx!Fresh,
                                                betas |-> [h \in 1..Len(lv) |-> ValueLeaves(Ev.bv[h], lv[h].ty)]])
                ELSE Keep(<< keys, prs >>)
MutKey == /\ Ev.e = "mkey" /\ Keep(<< dps, prs, ctxs >>)
          /\ keys' = Put(keys, Ev.k, [d |-> keys[Ev.from].d, k |-> Ev.key, full |-> Ev.full])

--------------------------------------------------------------------------------
AllValid(lvl, out) == \A i \in 1..Len(out) : ValidV(lvl.L, out[i])
Shares(lv, key, h, pts) == [i \in 1..Len(pts) |-> KeyShare(lv, key, h, pts[i])]
TypeOk2(lv, h) == IF h >= 1 /\ h <= Len(lv) THEN TypeEq(Ev.ty, lv[h].ty) ELSE TRUE
HOk(lv, h) == h >= 1 /\ h <= Len(lv)

At == /\ Ev.e = "at" /\ Keep(<< dps, keys, prs, ctxs >>)
      /\ LET lv == dps[Ev.d].lv
             key == keys[Ev.k]
             h == Ev.lv + 1
             ok == /\ HOk(lv, h) /\ TypeOk2(lv, h) /\ KeyOk(lv, key.k)
                   /\ \A i \in 1..Len(Ev.pts) : Cx!InDomain(lv, Ev.pts[i], h)
                   /\ Ev.pts = <<>> \/ VcOk(lv, key.k, h)
         IN IF ~ok THEN Ev.code = INVALID
            ELSE /\ Ev.code = OK
                 /\ Len(Ev.out) = Len(Ev.pts) /\ AllValid(lv[h], Ev.out)
                 /\ "dir" \in DOMAIN Ev => Ev.out = Ev.dir

\* What the two parties' outputs must add up to.
PointValue(lv, pr, h, x) == IF x = PrefixOf(lv, pr.alpha, h) THEN pr.betas[h] ELSE ZeroV(lv[h].L)
Reconstruct(lv, pr, h, pos, a, b) ==
   /\ Len(a) = Len(pos) /\ Len(b) = Len(pos)
   /\ \A i \in 1..Len(pos) : AddV(lv[h].L, a[i], b[i]) = PointValue(lv, pr, h, pos[i])
PairAt == /\ Ev.e = "pairat" /\ Keep(<< dps, keys, prs, ctxs >>)
          /\ LET pr == prs[Ev.id]
                 lv == dps[pr.d].lv
                 h == Ev.lv + 1
             IN /\ Ev.ca = OK /\ Ev.cb = OK
                /\ AllValid(lv[h], Ev.a) /\ AllValid(lv[h], Ev.b)
                /\ Reconstruct(lv, pr, h, Ev.pts, Ev.a, Ev.b)

\* Positions an expansion answers for: below each prefix of level `from` (0: the whole domain).
Small(n) == WordOf(n, 128)
PosOf(lv, from, h, pre) ==
   IF pre = <<>> THEN [y \in 1..P2(lv[h].ld) |-> Small(y - 1)]
   ELSE LET g == lv[h].ld - lv[from].ld
        IN FlattenSeq([i \in 1..Len(pre) |->
              LET base == ShlW(pre[i], g) IN [y \in 1..P2(g) |-> AddW(base, Small(y - 1), 128)]])
Pair == /\ Ev.e = "pair" /\ Keep(<< dps, keys, ctxs >>)
        /\ LET pr == prs[Ev.id]
               lv == dps[pr.d].lv
               h == Ev.lv + 1
               c == IF Ev.prev < 0 THEN Cx!Fresh ELSE pr.c
               v == Cx!UntilVerdict(lv, c, h, Ev.pre, TRUE, TRUE)
           IN /\ Agrees(Ev.ca, v) /\ Ev.cb = Ev.ca
              /\ Ev.ca # OK => Ev.ca = INVALID
              /\ Ev.ca = OK =>
                    /\ AllValid(lv[h], Ev.a) /\ AllValid(lv[h], Ev.b)
                    /\ Reconstruct(lv, pr, h, PosOf(lv, c.prev, h, Ev.pre), Ev.a, Ev.b)
              /\ prs' = IF Ev.ca = OK THEN Put(prs, Ev.id, [pr EXCEPT !.c = Cx!AfterUntil(c, h, Ev.pre)])
                        ELSE Put(prs, Ev.id, [pr EXCEPT !.c = c])

(* A wide expansion: the sum of the shares, listed where it is not zero.    *)
Wide == /\ Ev.e = "wide" /\ Keep(<< dps, keys, prs, ctxs >>)
        /\ LET pr == prs[Ev.id]
               lv == dps[pr.d].lv
               h == Ev.lv + 1
               g == lv[h].ld - (IF Ev.via < 0 THEN 0 ELSE lv[Ev.via + 1].ld)
               a == PrefixOf(lv, pr.alpha, h)
               low == NatOf(Trunc(a, 32)) % P2(g)
               sub == IF Ev.via < 0 THEN << >> ELSE PrefixOf(lv, pr.alpha, Ev.via + 1)
               n == IF Ev.via < 0 THEN 1 ELSE Len(Ev.pre)
               hits == SelectSeq(UpTo(n), LAMBDA i : Ev.via < 0 \/ (IF Ev.via < 0 THEN TRUE ELSE Ev.pre[i] = sub))
               zero == pr.betas[h] = ZeroV(lv[h].L)
           IN /\ Ev.ca = OK /\ Ev.cb = OK
              /\ Ev.na = n * P2(g) /\ Ev.nb = n * P2(g)
              /\ Ev.at = (IF zero THEN << >> ELSE [i \in 1..Len(hits) |-> (hits[i] - 1) * P2(g) + low])
              /\ \A i \in 1..Len(Ev.v) : Ev.v[i] = pr.betas[h]
              /\ Len(Ev.v) = Len(Ev.at)

--------------------------------------------------------------------------------
Context == /\ Ev.e = "ctx" /\ Keep(<< dps, keys, prs >>)
           /\ LET lv == dps[Ev.d].lv
                  key == keys[Ev.k]
              IN IF KeyOk(lv, key.k)
                 THEN /\ Ev.code = OK /\ Ev.prev = -1
                      /\ ctxs' = Put(ctxs, Ev.id, [d |-> Ev.d, k |-> key.k, full |-> key.full, c |-> Cx!Fresh])
                 ELSE Ev.code = INVALID /\ Keep(ctxs)
MutCtx == /\ Ev.e = "mctx" /\ Keep(<< dps, keys, prs >>)
          /\ LET x == ctxs[Ev.from]
                 lv == dps[x.d].lv
                 ok == Ev.bad = 0 /\ CtxOk(lv, Ev.ctx)
             IN ctxs' = Put(ctxs, Ev.id,
                   [x EXCEPT !.k = Ev.ctx.key, !.full = 0,
                             !.c = [@ EXCEPT !.bad = ~ok, !.prev = IF Ev.ctx.prev < 0 THEN 0 ELSE Ev.ctx.prev + 1,
                                             !.at = IF Ev.ctx.np = 0 THEN 0 ELSE @]])
Until == /\ Ev.e = "until" /\ Keep(<< dps, keys, prs >>)
         /\ LET x == ctxs[Ev.id]
                lv == dps[x.d].lv
                h == Ev.lv + 1
                vcok == IF HOk(lv, h) /\ ~x.c.bad THEN VcOk(lv, x.k, h) ELSE FALSE
                v == Cx!UntilVerdict(lv, x.c, h, Ev.pre, TypeOk2(lv, h), vcok)
            IN /\ Agrees(Ev.code, v)
               /\ IF Ev.code = OK
                  THEN /\ Ev.prev = Ev.lv
                       /\ LET pos == PosOf(lv, x.c.prev, h, Ev.pre)
                          IN /\ Len(Ev.out) = Len(pos) /\ AllValid(lv[h], Ev.out)
                             /\ "dir" \in DOMAIN Ev => Ev.pos = pos /\ Ev.out = Ev.dir
                       /\ ctxs' = Put(ctxs, Ev.id, [x EXCEPT !.c = Cx!AfterUntil(@, h, Ev.pre)])
                  ELSE Ev.code = INVALID /\ Ev.same = 1 /\ Keep(ctxs)
AtCtx == /\ Ev.e = "atc" /\ Keep(<< dps, keys, prs >>)
         /\ LET x == ctxs[Ev.id]
                lv == dps[x.d].lv
                h == Ev.lv + 1
                vcok == IF HOk(lv, h) /\ ~x.c.bad THEN VcOk(lv, x.k, h) ELSE FALSE
                v == Cx!AtVerdict(lv, x.c, h, Ev.pts, TypeOk2(lv, h), vcok)
            IN /\ Agrees(Ev.code, v)
               /\ IF Ev.code = OK
                  THEN /\ Ev.pts # <<>> => Ev.prev = Ev.lv
                       /\ Len(Ev.out) = Len(Ev.pts) /\ AllValid(lv[h], Ev.out)
                       /\ Ev.out = Ev.dir
                       /\ ctxs' = Put(ctxs, Ev.id, [x EXCEPT !.c = Cx!AfterAt(@, h, Ev.pts)])
                  ELSE Ev.code = INVALID /\ Ev.same = 1 /\ Keep(ctxs)
Reload == /\ Ev.e = "reload" /\ Keep(<< dps, keys, prs, ctxs >>)
          /\ Ev.ok = 1 /\ Ev.prev = ctxs[Ev.id].c.prev - 1
(* A context laid open: what it holds is the state of this evaluation, no   *)
(* more and no less (the rest of it in CtxExact).                            *)
CtxW == /\ Ev.e = "ctxw" /\ Keep(<< dps, keys, prs, ctxs >>)
        /\ LET x == ctxs[Ev.id]
               lv == dps[x.d].lv
           IN /\ CtxOk(lv, Ev.ctx) /\ Ev.ctx.prev = x.c.prev - 1
              /\ Ev.front = 1
              /\ Len(Ev.parts) = Ev.ctx.np
              /\ Ev.ctx.np > 0 => LET h == Ev.ctx.pl + 1 IN
                    /\ \A i \in 1..Len(Ev.parts) : lv[h].tl >= 128 \/ IsZero(ShrW(Ev.parts[i].p, lv[h].tl))
                    /\ Cardinality({ Ev.parts[i].p : i \in 1..Len(Ev.parts) }) = Cardinality({ << Ev.parts[i].p, Ev.parts[i].s, Ev.parts[i].c >> : i \in 1..Len(Ev.parts) })
              \* what can be refined is there to be refined
              /\ x.c.at > 0 /\ x.c.prev < Len(lv) =>
                    /\ Ev.ctx.pl + 1 = x.c.at
                    /\ { Cx!Tree(lv, q, x.c.at) : q \in x.c.known } \subseteq { Ev.parts[i].p : i \in 1..Len(Ev.parts) }
CtxExact(e) ==
   LET x == ctxs[e.id]
       lv == dps[x.d].lv
       h == e.ctx.pl + 1
       node(p) == TLCEval(Core!Walk([i \in 1..lv[h].tl |-> BitW(p, lv[h].tl - i)], e.key.s, e.key.party, e.key.cw, 0))
   IN /\ x.full = 1 => e.key = x.k
      /\ \A i \in 1..Len(e.parts) : << e.parts[i].s, e.parts[i].c >> = << node(e.parts[i].p)[1], node(e.parts[i].p)[2] >>
      /\ e.w = WireContext(e.key, e.ctx.prev, e.parts, e.ctx.pl)
Fork == /\ Ev.e = "fork" /\ Keep(<< dps, keys, prs >>)
        /\ ctxs' = Put(ctxs, Ev.id, ctxs[Ev.from])

--------------------------------------------------------------------------------
MinI(a, b) == IF a < b THEN a ELSE b
Apply == /\ Ev.e = "apply" /\ Keep(<< dps, keys, prs, ctxs >>)
         /\ LET lv == dps[Ev.d].lv
                n == Len(Ev.ks)
                done == MinI(Len(lv), MaxI(Ev.stop, 1))     \* levels after which the operation said stop
                lastLd == LastOf(lv).ld
                good == /\ Len(Ev.pts) = n
                        /\ \A j \in 1..n : KeyOk(lv, keys[Ev.ks[j]].k)
                        /\ \A h \in 1..Len(lv) : TypeEq(lv[h].ty, lv[1].ty)
                        /\ \A j \in 1..n : Ev.shift + lastLd >= 128 \/ IsZero(ShrW(Ev.pts[j], Ev.shift + lastLd))
                        /\ \A j \in 1..n : \A h \in 1..done : VcOk(lv, keys[Ev.ks[j]].k, h)
            IN IF ~good THEN Ev.code = INVALID
               ELSE IF n = 0      \* nothing to evaluate: the operation sees empty results or none
               THEN /\ Ev.code = OK /\ Len(Ev.res) \in {0, done} /\ \A h \in 1..Len(Ev.res) : Ev.res[h] = <<>>
               ELSE /\ Ev.code = OK
                    /\ Len(Ev.res) = done /\ Len(Ev.dir) = done
                    /\ \A h \in 1..done :
                         /\ Len(Ev.res[h]) = n
                         /\ Ev.pos[h] = [j \in 1..n |-> ShrW(Ev.pts[j], Ev.shift + lastLd - lv[h].ld)]
                         /\ Ev.res[h] = Ev.dir[h]
(* Threads sharing the object: each got the same answer every time, the one  *)
(* it gets alone.                                                            *)
Threads == /\ Ev.e = "mt" /\ Keep(<< dps, keys, prs, ctxs >>)
           /\ \A j \in 1..Len(Ev.th) : Ev.th[j].codes = << OK >> /\ Ev.th[j].outs = << Ev.th[j].dir >>
Seeds == /\ Ev.e = "fresh" /\ Keep(<< dps, keys, prs, ctxs >>)
         /\ Ev.code = OK
         /\ AllDistinct(Ev.a \o Ev.b)
         /\ FullRank(Ev.a, 128) /\ FullRank(Ev.b, 128)
         /\ FullRank([i \in 1..Len(Ev.a) |-> Xor128(Ev.a[i], Ev.b[i])], 128)
         \* two fresh 128-bit seeds for every pair made so far (not decidable if they come from elsewhere)
         /\ Ev.drawn = 0 \/ Ev.drawn >= 32 * Ev.pairs

--------------------------------------------------------------------------------
(* Keys recorded in full: the event just taken also has exactly the bits of *)
(* the construction.  A constraint and not part of the action because TLC   *)
(* does not cache values while it computes successors.                      *)
Lv0 == Trace[l - 1]
Exact ==
   IF l = 1 \/ (IF l = 1 THEN TRUE ELSE Lv0.e \notin {"gen", "mkey", "at", "until", "atc", "apply", "mt", "ctxw"}) THEN TRUE
   ELSE IF Lv0.e = "ctxw" THEN CtxExact(Lv0)
   ELSE IF Lv0.e = "mkey" THEN Lv0.full = 1 => Lv0.key.w = WireKey(Lv0.key)
   ELSE IF Lv0.e = "mt" THEN
      \A j \in 1..Len(Lv0.th) : Lv0.th[j].kind < 2 /\ keys[Lv0.th[j].k].full = 1 =>
         Lv0.th[j].outs[1] = Shares(dps[Lv0.d].lv, keys[Lv0.th[j].k].k, Lv0.lv + 1, Lv0.th[j].pos)
   ELSE IF Lv0.code # OK THEN TRUE
   ELSE CASE Lv0.e = "gen" -> Lv0.full = 1 =>
               LET lv == dps[Lv0.d].lv
               IN /\ Prescribed(lv, Lv0.alpha, [h \in 1..Len(lv) |-> ValueLeaves(Lv0.bv[h], lv[h].ty)], Lv0.ka, Lv0.kb)
                  /\ Lv0.ka.w = WireKey(Lv0.ka) /\ Lv0.kb.w = WireKey(Lv0.kb)
          [] Lv0.e = "at" -> keys[Lv0.k].full = 1 =>
               Lv0.out = Shares(dps[Lv0.d].lv, keys[Lv0.k].k, Lv0.lv + 1, Lv0.pts)
          [] Lv0.e = "until" -> ctxs[Lv0.id].full = 1 =>
               Lv0.out = Shares(dps[ctxs[Lv0.id].d].lv, ctxs[Lv0.id].k, Lv0.lv + 1, Lv0.pos)
          [] Lv0.e = "atc" -> ctxs[Lv0.id].full = 1 =>
               Lv0.out = Shares(dps[ctxs[Lv0.id].d].lv, ctxs[Lv0.id].k, Lv0.lv + 1, Lv0.pts)
          [] Lv0.e = "apply" -> \A h \in 1..Len(Lv0.res) : \A j \in 1..Len(Lv0.res[h]) : keys[Lv0.ks[j]].full = 1 =>
               Lv0.res[h][j] = KeyShare(dps[Lv0.d].lv, keys[Lv0.ks[j]].k, h, Lv0.pos[h][j])
Next == l <= Len(Trace) /\ l' = l + 1 /\
        (\/ New \/ Create \/ Gen \/ MutKey \/ At \/ PairAt \/ Pair \/ Wide \/ Context \/ MutCtx \/ Until \/ AtCtx
         \/ Reload \/ CtxW \/ Fork \/ Apply \/ Threads \/ Seeds)
Spec == Init /\ [][Next]_vars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
