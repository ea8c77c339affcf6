------------------------------ MODULE DpfCtxMC ------------------------------
(***************************************************************************)
(* An evaluation context with a cache of tree nodes, several values packed  *)
(* below one node, against the rule that an answer depends on the positions *)
(* asked for and on nothing else.  A cached "seed" is symbolic: the node    *)
(* <<tree level, index>> it was reached at.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Lv, MaxCalls, MaxPre, PrintScripts
LvA == << [ld |-> 1, tl |-> 0], [ld |-> 2, tl |-> 1], [ld |-> 3, tl |-> 2] >>
LvB == << [ld |-> 0, tl |-> 0], [ld |-> 2, tl |-> 2], [ld |-> 3, tl |-> 3] >>
LvC == << [ld |-> 2, tl |-> 0], [ld |-> 3, tl |-> 2] >>
LvD == << [ld |-> 1, tl |-> 1], [ld |-> 2, tl |-> 2], [ld |-> 3, tl |-> 3], [ld |-> 4, tl |-> 4] >>
VARIABLES c,        \* abstract context
          cache,    \* function: tree index (at tree level of c.at) -> node
          res,      \* last answer: sequence of << position, node, index in node >>
          hist
vars == << c, cache, res, hist >>
MShr(a, n) == a \div (2^n)
MZ(a) == a = 0
X == INSTANCE DpfContext WITH Shr <- MShr, IsZ <- MZ
D == Len(Lv)
Root == << 0, 0 >>
\* From a node down to tree level `to` along the low bits of tree index ti.
Down(n, ti, to) == << to, n[2] * 2^(to - n[1]) + (ti % (2^(to - n[1]))) >>
\* The node of prefix p of level h, found through the cache.
ViaCache(p, h) ==
   IF c.at = 0 \/ c.at > h THEN Down(Root, X!Tree(Lv, p, h), Lv[h].tl)
   ELSE Down(cache[MShr(X!Tree(Lv, p, h), Lv[h].tl - Lv[c.at].tl)], X!Tree(Lv, p, h), Lv[h].tl)
\* Position x of level h read off at node n: the value at x's place in the block.
Read(x, h, n) == << x, n, x % (2^(Lv[h].ld - Lv[h].tl)) >>
Right(h) == \A i \in 1..Len(res) :
   LET x == res[i][1] IN res[i][2] = << Lv[h].tl, X!Tree(Lv, x, h) >> /\ res[i][3] = x % (2^(Lv[h].ld - Lv[h].tl))

Init == c = X!Fresh /\ cache = <<>> /\ res = <<>> /\ hist = <<>>
Note(op, h, ps, v) == hist' = Append(hist, [op |-> op, h |-> h, ps |-> ps, ok |-> v])
Store(ps, h) == [ti \in {X!Tree(Lv, p, h) : p \in X!SeqSet(ps)} |->
                   ViaCache(CHOOSE p \in X!SeqSet(ps) : X!Tree(Lv, p, h) = ti, h)]
Below(p, from, h) == LET g == Lv[h].ld - Lv[from].ld IN [y \in 1..(2^g) |-> p * 2^g + (y - 1)]
CanLook(ps, from) == c.at = 0 \/ c.at > from \/
   \A i \in 1..Len(ps) : MShr(X!Tree(Lv, ps[i], from), Lv[from].tl - Lv[c.at].tl) \in DOMAIN cache
Until(h, pre) ==
   /\ Len(hist) < MaxCalls
   /\ LET v == X!UntilVerdict(Lv, c, h, pre, TRUE, TRUE) IN
      \/ /\ TRUE \in v
         /\ (IF pre = <<>> THEN TRUE ELSE CanLook(pre, c.prev)) = TRUE
         /\ c' = X!AfterUntil(c, h, pre)
         /\ IF pre = <<>> THEN /\ cache' = cache
                               /\ res' = [x \in 1..(2^Lv[h].ld) |-> Read(x - 1, h, Down(Root, X!Tree(Lv, x - 1, h), Lv[h].tl))]
            ELSE /\ cache' = Store(pre, c.prev)
                 /\ res' = FlattenSeq([i \in 1..Len(pre) |->
                      LET n == ViaCache(pre[i], c.prev)
                      IN [y \in 1..Len(Below(pre[i], c.prev, h)) |->
                            LET x == Below(pre[i], c.prev, h)[y] IN Read(x, h, Down(n, X!Tree(Lv, x, h), Lv[h].tl))]])
         /\ Note("until", h, pre, TRUE)
      \/ FALSE \in v /\ c' = c /\ cache' = cache /\ res' = <<>> /\ Note("until", h, pre, FALSE)
At(h, pts) ==
   /\ Len(hist) < MaxCalls
   /\ LET v == X!AtVerdict(Lv, c, h, pts, TRUE, TRUE) IN
      \/ /\ TRUE \in v /\ CanLook(pts, h) = TRUE
         /\ c' = X!AfterAt(c, h, pts)
         /\ cache' = Store(pts, h)
         /\ res' = [i \in 1..Len(pts) |-> Read(pts[i], h, ViaCache(pts[i], h))]
         /\ Note("at", h, pts, TRUE)
      \/ FALSE \in v /\ c' = c /\ cache' = cache /\ res' = <<>> /\ Note("at", h, pts, FALSE)
Pts(h) == UNION {[1..n -> 0..(2^Lv[h].ld)] : n \in 0..MaxPre}     \* one point too many
Next == \/ \E h \in 1..D : Until(h, <<>>)
        \/ c.prev > 0 /\ \E h \in 1..D : \E pre \in Pts(c.prev) : Until(h, pre)
        \/ \E h \in 1..D : \E pts \in Pts(h) : pts # <<>> /\ At(h, pts)
Spec == Init /\ [][Next]_vars
NoHist == << c, cache, res, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)] >>
AnswersRight == hist # <<>> /\ hist[Len(hist)].ok => Right(hist[Len(hist)].h)
CacheRight == c.at > 0 => \A ti \in DOMAIN cache : cache[ti] = << Lv[c.at].tl, ti >>
\* Going on with refinements of what was asked never gets stuck.
CanGoOn == (c.prev > 0 /\ c.prev < D /\ c.at > 0) =>
   \A q \in c.known : \E p \in 0..(2^Lv[c.prev].ld - 1) :
       X!UntilVerdict(Lv, c, c.prev + 1, << p >>, TRUE, TRUE) = {TRUE}
Script == (PrintScripts /\ Len(hist) = MaxCalls) => PrintT("@@" \o ToJson(hist))
=============================================================================
