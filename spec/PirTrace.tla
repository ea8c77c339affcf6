------------------------------ MODULE PirTrace ------------------------------
(***************************************************************************)
(* Recorded histories of the retrieval layer: builders, servers in their    *)
(* roles, clients, and runs of the two-server protocol with faults.         *)
(***************************************************************************)
EXTENDS DpfAES, PirDb, Wire, Sha256, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, blds, dbs, srvs, clis, reqs, resps, half,
          used       \* [otps, seeds, halves, fps]: what must not repeat, and fingerprints seen
vars == << l, blds, dbs, srvs, clis, reqs, resps, half, used >>
Ev == Trace[l]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fresh == /\ blds' = << >> /\ dbs' = << >> /\ srvs' = << >> /\ clis' = << >> /\ reqs' = << >> /\ resps' = << >>
         /\ half' = << >>
Init == /\ l = 1 /\ blds = << >> /\ dbs = << >> /\ srvs = << >> /\ clis = << >> /\ reqs = << >> /\ resps = << >>
        /\ half = << >> /\ used = [otps |-> {}, seeds |-> {}, halves |-> {}, fps |-> << >>]
New == Ev.e = "new" /\ Fresh /\ UNCHANGED used

--------------------------------------------------------------------------------
(* Asked for something that is not there: only where it was refused.        *)
Missing == /\ Ev.e = "missing" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, resps, half, used >>
           /\ \A i \in DOMAIN blds : Ev.what # "builder " \o ToString(i)
           /\ \A i \in DOMAIN dbs : Ev.what # "database " \o ToString(i)
           /\ \A i \in DOMAIN srvs : Ev.what # "server " \o ToString(i)
           /\ \A i \in DOMAIN clis : Ev.what # "client " \o ToString(i)
           /\ \A i \in DOMAIN reqs : Ev.what # "request " \o ToString(i)
           /\ \A i \in DOMAIN resps : Ev.what # "response " \o ToString(i)

--------------------------------------------------------------------------------
(* Builders.                                                                *)
NotBuilders == << dbs, srvs, clis, reqs, resps, half, used >>
NewB == /\ Ev.e = "b" /\ UNCHANGED NotBuilders
        /\ blds' = Put(blds, Ev.id, [kind |-> Ev.kind, recs |-> <<>>, built |-> FALSE, p |-> NoParams])
Ins == /\ Ev.e = "ins" /\ UNCHANGED NotBuilders
       /\ LET b == blds[Ev.id] IN
          blds' = Put(blds, Ev.id, [b EXCEPT !.recs = @ \o (IF b.kind = "dense" THEN Ev.v
                                                            ELSE [i \in 1..Len(Ev.v) |-> << Ev.k[i], Ev.v[i] >>])])
CloneB == Ev.e = "clone" /\ UNCHANGED NotBuilders /\ blds' = Put(blds, Ev.to, blds[Ev.id])
ClearB == Ev.e = "clear" /\ UNCHANGED NotBuilders /\ blds' = Put(blds, Ev.id, [blds[Ev.id] EXCEPT !.recs = <<>>, !.built = FALSE])
ParB == Ev.e = "par" /\ UNCHANGED NotBuilders
        /\ blds' = Put(blds, Ev.id, IF blds[Ev.id].kind = "dense" THEN blds[Ev.id] ELSE [blds[Ev.id] EXCEPT !.p = Ev.p])
SubB == Ev.e = "sub" /\ UNCHANGED << blds >> /\ UNCHANGED NotBuilders

Records(b) == IF b.kind = "cuckoo" THEN FirstOnes(b.recs) ELSE b.recs
HashFns(b) == IF b.kind = "cuckoo" THEN b.p.h ELSE 1
PosOf(b, recs) == IF ParamsCodes(b.p) = {OK} /\ HashFns(b) >= 1
                  THEN [i \in 1..Len(recs) |-> Positions(b.p, HashFns(b), recs[i][1])] ELSE <<>>
BuildCodes(b, recs, P) ==
   IF b.built THEN {FAILED_PRECONDITION}
   ELSE CASE b.kind = "dense" -> {OK} [] b.kind = "cuckoo" -> CuckooCodes(b.p, recs, P) [] b.kind = "simple" -> SimpleCodes(b.p, recs)
NumCols(kind) == IF kind = "cuckoo" THEN 2 ELSE 1
Column(dump, c) == [i \in 1..Len(dump) |-> dump[i][c]]
\* Nothing to answer with: some column has only empty entries.
Hollow(kind, recs) ==
   CASE kind = "dense" -> MaxLen(recs) = 0
     [] kind = "simple" -> recs = <<>>
     [] kind = "cuckoo" -> \E c \in 1..2 : MaxLen([i \in 1..Len(recs) |-> recs[i][c]]) = 0
BlankCols(kind, n) == [c \in 1..NumCols(kind) |-> [i \in 1..n |-> <<>>]]
Build ==
   /\ Ev.e = "build" /\ UNCHANGED << srvs, clis, reqs, resps, half, used >>
   /\ LET b == blds[Ev.id]
          recs == TLCEval(Records(b))
          P == TLCEval(IF b.kind = "dense" \/ b.built THEN <<>> ELSE PosOf(b, recs))
          n == IF b.kind = "dense" THEN Len(recs) ELSE ValI(b.p.nb)
          cols == [c \in 1..NumCols(b.kind) |-> Column(Ev.dump, c)]
      IN /\ Ev.code \in BuildCodes(b, recs, P)
         /\ Ev.code = OK =>
               /\ Ev.size = Len(recs) /\ Ev.nsel = n
               /\ IF n = 0 THEN Ev.dc = OK /\ Ev.dump = <<>>
                  ELSE IF Hollow(b.kind, recs) THEN Ev.dc = INVALID /\ Ev.pay = MAX_VALUE_SIZE_IS_ZERO
                  ELSE Ev.dc = OK
               /\ b.kind = "dense" => Ev.con = recs /\ Ev.max = MaxLen(recs)
         /\ blds' = Put(blds, Ev.id, [b EXCEPT !.built = TRUE])
         /\ dbs' = IF Ev.code = OK
                   THEN Put(dbs, Ev.d, [kind |-> b.kind, p |-> b.p, recs |-> recs, n |-> n, size |-> Ev.size,
                                        cols |-> IF Ev.dc = OK THEN cols ELSE BlankCols(b.kind, n)])
                   ELSE dbs
Ip == /\ Ev.e = "ip" /\ UNCHANGED blds /\ UNCHANGED NotBuilders
      /\ LET d == dbs[Ev.d] IN
         /\ Ev.code = ProductCode(d.cols, Ev.sel)
         /\ IF Ev.code # OK /\ \E c \in 1..Len(d.cols) : Width(d.cols[c]) = 0
            THEN Ev.pay = MAX_VALUE_SIZE_IS_ZERO \/ (Ev.pay = -1 /\ ~EmptyAnswer(d.cols, Ev.sel))
            ELSE Ev.pay = -1
         /\ Ev.code = OK => Ev.res = Products(d.cols, Ev.sel)

--------------------------------------------------------------------------------
(* Parameters, servers, clients.                                            *)
GenParams ==
   /\ Ev.e = "gen" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, resps, half >>
   /\ Ev.code = (IF Ev.wk # Ev.kind \/ ~PosI(Ev.n) \/ Ev.fam = 0 THEN INVALID ELSE OK)
   /\ IF Ev.code = OK
      THEN /\ Len(Ev.p.seed) = 16 /\ Ev.p.seed \notin used.seeds /\ Ev.p.fam = Ev.fam
           /\ Ev.kind = "simple" => Ev.p.nb = Ev.n
           /\ Ev.kind = "cuckoo" => /\ Ev.p.h = 3
                                    /\ LET two == AddW(Ev.p.nb, Ev.p.nb, 64)
                                           three == AddW(Ev.n, AddW(Ev.n, Ev.n, 64), 64)
                                       IN two = three \/ AddW(two, WordOf(1, 64), 64) = three
           /\ used' = [used EXCEPT !.seeds = @ \cup {Ev.p.seed}]
      ELSE UNCHANGED used

LogDomain(n) == CHOOSE k \in 0..30 : P2(k) >= n /\ \A j \in 0..(k - 1) : P2(j) < n
LevelsFor(n) == LevelsOf(<< [ld |-> LogDomain(n), has |-> 1, sec |-> [nan |-> 0, m |-> 0], ty |-> [k |-> "xor", b |-> 128]] >>)

SrvCodes == LET d == IF Ev.d >= 0 THEN dbs[Ev.d] ELSE [size |-> 0, n |-> 0] IN
   IF Ev.d < 0 \/ (Ev.role # "plain" /\ Ev.cb = 0) THEN {INVALID}
   ELSE IF Ev.kind = "dense"
        THEN IF Ev.p.wk = "dense" /\ PosI(Ev.p.n) /\ IntI(Ev.p.n) /\ ValI(Ev.p.n) = d.size THEN {OK} ELSE {INVALID}
   ELSE IF ~PosI(Ev.p.nb) \/ ~IntI(Ev.p.nb) \/ ValI(Ev.p.nb) # d.n \/ Ev.p.h <= 0 \/ Ev.p.fam = 0 THEN {INVALID}
   ELSE IF HashOk(Ev.p) /\ (Ev.kind = "cuckoo" => Ev.p.h >= 2) THEN {OK}
   ELSE {OK, INVALID}
PubKind(kind) == IF kind = "cuckoo" THEN 1 ELSE IF kind = "simple" THEN 2 ELSE 0
Srv == /\ Ev.e = "srv" /\ UNCHANGED << blds, dbs, clis, reqs, resps, half, used >>
       /\ Ev.code \in SrvCodes
       /\ Ev.code = OK => /\ Ev.pub.k = PubKind(Ev.kind)
                          /\ Ev.kind # "dense" => Ev.pub.p = Ev.p
                          /\ Ev.pubb = WirePublic(Ev.pub.k, Ev.pub.p)
       /\ srvs' = IF Ev.code # OK THEN srvs
                  ELSE Put(srvs, Ev.id, [kind |-> Ev.kind, role |-> Ev.role, d |-> Ev.d, fail |-> Ev.fail, nm |-> Ev.nm, ctx |-> Ev.ctx,
                                         lv |-> LevelsFor(dbs[Ev.d].n), seed |-> IF Ev.kind = "dense" THEN <<>> ELSE Ev.p.seed])
CliCodes ==
   IF Ev.enc = 0 THEN {INVALID}
   ELSE IF Ev.kind = "dense" THEN (IF Ev.p.wk = "dense" /\ PosI(Ev.p.n) THEN {OK} ELSE {INVALID})
   ELSE LET p == Ev.p.p IN
        IF Ev.p.k # PubKind(Ev.kind) \/ ~PosI(p.nb) \/ ~IntI(p.nb) \/ p.h <= 0 \/ ~HashOk(p) THEN {INVALID}
        ELSE IF Ev.kind = "cuckoo" /\ p.h < 2 THEN {OK, INVALID} ELSE {OK}
Context(kind) == CHOOSE c \in { srvs[s].ctx : s \in DOMAIN srvs } : \E s \in DOMAIN srvs : srvs[s].kind = kind /\ srvs[s].ctx = c
KnownContext(kind) == \E s \in DOMAIN srvs : srvs[s].kind = kind
Cli == /\ Ev.e = "cli" /\ UNCHANGED << blds, dbs, srvs, reqs, resps, half, used >>
       /\ Ev.code \in CliCodes
       /\ clis' = IF Ev.code # OK THEN clis
                  ELSE Put(clis, Ev.id, [kind |-> Ev.kind, def |-> Ev.def, ctx |-> Ev.ctx,
                                         n |-> IF Ev.kind = "dense" THEN Ev.p.n ELSE Ev.p.p.nb,
                                         p |-> IF Ev.kind = "dense" THEN NoParams ELSE Ev.p.p])

--------------------------------------------------------------------------------
(* Requests.                                                                *)
Functions(c) == IF c.kind = "cuckoo" THEN c.p.h ELSE 1
\* Positions (from 0) asked for, in order.
Asked(c, q) == IF c.kind = "dense" THEN q
               ELSE FlattenSeq([i \in 1..Len(q) |-> [f \in 1..Functions(c) |-> Positions(c.p, Functions(c), q[i])[f] - 1]])
QueryOk(c, q) == c.kind # "dense" \/ \A i \in 1..Len(q) : q[i] >= 0 /\ (~IntI(c.n) \/ q[i] < ValI(c.n))
\* The layout of a request's keys for databases too large to list.
BigLevels(n) == LET k == IF IsZero(SubW(n, ShlW(WordOf(1, 64), BitLen(n) - 1), 64)) THEN BitLen(n) - 1 ELSE BitLen(n)
                IN LevelsOf(<< [ld |-> k, has |-> 1, sec |-> [nan |-> 0, m |-> 0], ty |-> [k |-> "xor", b |-> 128]] >>)
Levels(c) == IF IntI(c.n) /\ ValI(c.n) <= P2(29) THEN LevelsFor(ValI(c.n)) ELSE BigLevels(c.n)
\* Key seeds are drawn afresh, both halves of each.
Halves(w) == << SubSeq(w, 1, 4), SubSeq(w, 5, 8) >>
KeyHalves(keys) == FlattenSeq([i \in 1..Len(keys) |-> Halves(keys[i].s)])
StateKind(kind) == CASE kind = "dense" -> 1 [] kind = "cuckoo" -> 2 [] kind = "simple" -> 3
Request ==
   /\ Ev.e = "req" /\ UNCHANGED << blds, dbs, srvs, clis, resps, half >>
   /\ LET c == clis[Ev.c]
          good == QueryOk(c, Ev.q)
          asked == TLCEval(Asked(c, Ev.q))
          lv == Levels(c)
          fp == Ev.rq.fp
      IN /\ IF ~good THEN Ev.code = INVALID
            ELSE IF Ev.plain = 0 /\ Ev.encfail # 0 THEN Ev.code = Ev.encfail
            ELSE Ev.code = OK
         /\ Ev.code = OK =>
               /\ Ev.rq.w = 1 /\ Ev.rq.k = 2 /\ Ev.rq.hp = 1
               /\ Len(Ev.rq.keys) = Len(asked) /\ Len(Ev.he.keys) = Len(asked)
               /\ \A i \in 1..Len(asked) :
                     /\ KeyLayout(lv, Ev.rq.keys[i]) /\ KeyLayout(lv, Ev.he.keys[i])
                     /\ { Ev.rq.keys[i].party, Ev.he.keys[i].party } = {0, 1}
                     /\ Ev.rq.keys[i].cw = Ev.he.keys[i].cw /\ Ev.rq.keys[i].last = Ev.he.keys[i].last
               /\ Ev.he.fp = fp
               /\ c.kind = "dense" => IsZero(fp)
               /\ c.kind # "dense" => /\ ~IsZero(fp)
                                      /\ \A s \in DOMAIN used.fps : (used.fps[s] = fp) = (s = c.p.seed)
               /\ Len(Ev.he.otp) = 16 /\ Ev.he.otp \notin used.otps
               /\ LET hs == KeyHalves(Ev.rq.keys) \o KeyHalves(Ev.he.keys)
                  IN AllDistinct(hs) /\ \A i \in 1..Len(hs) : hs[i] \notin used.halves
               /\ Ev.st.otp = Ev.he.otp /\ Ev.st.k = StateKind(c.kind)
               /\ Ev.st.qs = (IF c.kind = "dense" THEN <<>> ELSE Ev.q)
               \* the helper's part leaves the client encrypted, once, in the right context
               /\ Ev.plain = 0 => /\ Ev.nenc = 1 /\ Ev.rq.he = 1 /\ Ev.rq.enc = Ev.enc
                                  /\ c.def = 0 => Ev.ctx = c.ctx
                                  /\ c.def = 1 /\ KnownContext(c.kind) => Ev.ctx = Context(c.kind)
               /\ Ev.plain = 1 => Ev.nenc = 0
         /\ IF Ev.code = OK
            THEN /\ reqs' = Put(reqs, Ev.id, [c |-> Ev.c, q |-> Ev.q, pos |-> asked, L |-> Ev.rq.keys, H |-> Ev.he.keys, fp |-> fp,
                                              otp |-> Ev.he.otp, enc |-> Ev.enc, sealed |-> Ev.plain = 0])
                 /\ used' = [used EXCEPT !.otps = @ \cup {Ev.he.otp},
                                         !.halves = @ \cup Range(KeyHalves(Ev.rq.keys) \o KeyHalves(Ev.he.keys)),
                                         !.fps = IF c.kind = "dense" THEN @ ELSE Put(@, c.p.seed, fp)]
            ELSE UNCHANGED << reqs, used >>
AFresh == /\ Ev.e = "fresh" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, resps, half, used >>
          /\ Ev.code = OK
          /\ AllDistinct(Ev.otp) /\ FullRank([i \in 1..Len(Ev.otp) |-> WordOfBytes(Ev.otp[i], 128)], 128)
          /\ AllDistinct(Ev.sa \o Ev.sb) /\ FullRank(Ev.sa, 128) /\ FullRank(Ev.sb, 128)

(***************************************************************************)
(* Two lists of queries of the same length, asked in turn, over and over:   *)
(* nothing in what either server is given tells which of them it was.       *)
(***************************************************************************)
At(ss, j) == [i \in 1..Len(ss) |-> ss[i][j]]        \* key j of every request
EachHalf(ws) == FlattenSeq([i \in 1..Len(ws) |-> Halves(ws[i])])
Xors(a, b) == [i \in 1..Len(a) |-> Xor128(a[i], b[i])]
Turned(w) == [i \in 1..8 |-> w[9 - i]]
Pads(otp) == [i \in 1..Len(otp) |-> WordOfBytes(otp[i], 128)]
Same(ps, j) ==                                       \* the party does not follow the query
   LET of(m) == { ps[i][j] : i \in { i \in 1..Len(ps) : i % 2 = m } }
   IN of(0) = of(1)
Views ==
   /\ Ev.e = "views" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, resps, half, used >>
   /\ Ev.code = OK
   /\ LET k == Len(Asked(clis[Ev.c], Ev.q)) IN
      /\ Len(Ev.q) = Len(Ev.q2)
      /\ \A i \in 1..Len(Ev.sa) : Len(Ev.sa[i]) = k /\ Len(Ev.sb[i]) = k
      /\ \A j \in 1..k : Same(Ev.pa, j) /\ Same(Ev.pb, j)
      /\ \A i \in 1..Len(Ev.otp) : Len(Ev.otp[i]) = 16
      \* Two fresh seeds for every pair of keys and one for the pad: that much
      \* randomness was drawn (or none, if it comes from somewhere else; the
      \* slack is for randomness drawn ahead).
      /\ Ev.drawn = 0 \/ Ev.drawn >= Len(Ev.otp) * (32 * k + 16) - 1024
ViewsExact(e) ==
   LET k == Len(e.sa[1])
       n == Len(e.sa)
       pads == TLCEval(Pads(e.otp))
       all == TLCEval(FlattenSeq([i \in 1..n |-> e.sa[i] \o e.sb[i]]))
       few == TLCEval(FlattenSeq([i \in 1..2 |-> e.sa[i] \o e.sb[i]]))
       known == TLCEval(Range(all) \cup Range(pads))
   IN /\ AllDistinct(EachHalf(all \o pads))
      /\ FullRank(pads, 128) /\ FullRank(At(e.sa, 1), 128) /\ FullRank(At(e.sb, k), 128)
      \* no key's seed follows from another's, nor the pad from a seed
      /\ \A j \in 2..k : AllDistinct(EachHalf(Xors(At(e.sa, j), At(e.sa, 1)))) /\ AllDistinct(EachHalf(Xors(At(e.sb, j), At(e.sb, 1))))
      /\ \A j \in 1..k : /\ AllDistinct(EachHalf(Xors(At(e.sa, j), At(e.sb, j))))
                        /\ AllDistinct(EachHalf(Xors(At(e.sa, j), pads)))
                        /\ AllDistinct(EachHalf(Xors(At(e.sa, j), [i \in 1..n |-> Turned(pads[i])])))
      /\ \A i \in 1..Len(few) : /\ Turned(few[i]) \notin known
                               /\ AHL(few[i]) \notin known /\ AHR(few[i]) \notin known /\ FixedKeyHash(KeyValue, few[i]) \notin known
      /\ \A j \in { j \in {2, k} : j > 1 /\ j <= k } : FullRank(Xors(At(e.sa, j), At(e.sa, 1)), 128)
      /\ FullRank(Xors(At(e.sa, 1), At(e.sb, 1)), 128)

--------------------------------------------------------------------------------
(* What a server makes of a plain request.                                  *)
KeyFits(lv, k) == KeyOk(lv, k) /\ \A h \in 1..Len(lv) : VcOk(lv, k, h)
FpCodes(s, fp) == IF IsZero(fp) THEN {OK}
                  ELSE IF s.kind = "dense" THEN {OK, INVALID}
                  ELSE IF s.seed \in DOMAIN used.fps THEN (IF fp = used.fps[s.seed] THEN {OK} ELSE {INVALID})
                  ELSE IF \E t \in DOMAIN used.fps : used.fps[t] = fp THEN {INVALID}     \* another seed's
                  ELSE {OK, INVALID}
\* Codes allowed for a list of keys and a fingerprint.
PlainCodes(s, keys, fp) ==
   IF keys = <<>> THEN {INVALID}
   ELSE IF \E i \in 1..Len(keys) : ~KeyFits(s.lv, keys[i]) THEN {INVALID}
   ELSE (FpCodes(s, fp) \cap {INVALID}) \cup
        (IF OK \notin FpCodes(s, fp) THEN {}
         ELSE IF s.fail # 0 THEN {s.fail}
         ELSE IF \E c \in 1..Len(dbs[s.d].cols) : Width(dbs[s.d].cols[c]) = 0 THEN {INVALID} ELSE {OK})
\* Its answer, exactly.
Cells(cols, rows) == FlattenSeq([i \in 1..Len(rows) |-> [c \in 1..Len(cols) |-> rows[i][c]]])
Selection(lv, k, n) == [b \in 1..((n + 127) \div 128) |-> KeyShare(lv, k, 1, WordOf(b - 1, 128))[1]]
Answer(s, keys) ==
   LET d == dbs[s.d]
       sels == TLCEval([i \in 1..Len(keys) |-> Selection(s.lv, keys[i], d.n)])
   IN TLCEval(Cells(d.cols, Products(d.cols, sels)))
\* The sizes of its answer.
Shape(s, keys) == Cells(dbs[s.d].cols, [i \in 1..Len(keys) |-> [c \in 1..Len(dbs[s.d].cols) |-> Width(dbs[s.d].cols[c])]])
HasShape(m, sh) == Len(m) = Len(sh) /\ \A i \in 1..Len(m) : Len(m[i]) = sh[i]
\* The records at the positions a request asks for.
Records0(cols, pos) == Cells(cols, [i \in 1..Len(pos) |-> [c \in 1..Len(cols) |-> cols[c][pos[i] + 1]]])
XorAll(a, b) == [i \in 1..Len(a) |-> XorBytes(a[i], b[i])]
\* Masking with the stream of a seed, item after item.
Masked(otp, m) ==
   LET total == FoldLeft(LAMBDA acc, x : acc + Len(x), 0, m)
       s == TLCEval(StreamBytes(otp, Zero16, 0, total))
   IN FoldLeft(LAMBDA acc, i : << Append(acc[1], XorBytes(m[i], SubSeq(s, acc[2] + 1, acc[2] + Len(m[i])))), acc[2] + Len(m[i]) >>,
               << <<>>, 0 >>, UpTo(Len(m)))[1]
Clean(rq, r) == rq.keys = reqs[r].L /\ rq.fp = reqs[r].fp
KindOf(r) == clis[reqs[r].c].kind
Serves(s, r) == /\ s.kind = KindOf(r) /\ IntI(clis[reqs[r].c].n) /\ ValI(clis[reqs[r].c].n) = dbs[s.d].n

AskPlain ==
   /\ Ev.e = "plain" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, resps, used >>
   /\ LET s == srvs[Ev.s]
          r == reqs[Ev.r]
          mine == IF Ev.side = 0 THEN r.L ELSE r.H
          whole == Ev.rq.keys = mine /\ Ev.rq.fp = r.fp /\ Ev.rq.w = 1 /\ Ev.rq.k = 1 /\ Serves(s, Ev.r)
      IN /\ IF s.role # "plain" \/ Ev.rq.w # 1 \/ Ev.rq.k # 1 THEN Ev.code = INVALID
            ELSE Ev.code \in PlainCodes(s, Ev.rq.keys, Ev.rq.fp)
         /\ Ev.code = OK => Ev.resp.w = 1 /\ HasShape(Ev.resp.m, Shape(s, Ev.rq.keys))
         /\ Ev.code = OK /\ whole /\ << Ev.r, 1 - Ev.side >> \in DOMAIN half =>
               LET o == half[<< Ev.r, 1 - Ev.side >>] IN
               o.cols = dbs[s.d].cols => XorAll(o.m, Ev.resp.m) = Records0(dbs[s.d].cols, r.pos)
         /\ half' = IF Ev.code = OK /\ whole THEN Put(half, << Ev.r, Ev.side >>, [m |-> Ev.resp.m, cols |-> dbs[s.d].cols]) ELSE half

--------------------------------------------------------------------------------
(* The helper.  e: what was recorded of its work on request rq.             *)
HelperOk(s, rq, e, code, resp) ==
   IF s.role # "helper" \/ rq.w # 1 \/ rq.k # 3 THEN code = INVALID /\ e.decin = <<>>
   ELSE /\ e.decin = << rq.enc >> /\ e.ctx = s.ctx
        /\ IF e.derr # 0 THEN code = e.derr
           ELSE IF e.dok = 0 THEN code # OK
           ELSE IF e.parsed = 0 THEN code = INVALID
           ELSE /\ \/ code \in PlainCodes(s, e.inner.keys, e.inner.fp) \ {OK}
                   \/ OK \in PlainCodes(s, e.inner.keys, e.inner.fp) /\ code = (IF Len(e.inner.otp) = 16 THEN OK ELSE INVALID)
                   \* two things wrong: either may be reported
                   \/ Len(e.inner.otp) # 16 /\ code = INVALID
                /\ code = OK => resp.w = 1 /\ HasShape(resp.m, Shape(s, e.inner.keys))
AskHelper ==
   /\ Ev.e = "help" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, resps, half, used >>
   /\ HelperOk(srvs[Ev.s], Ev.rq, Ev, Ev.code, Ev.resp)

(***************************************************************************)
(* The leader.                                                              *)
(***************************************************************************)
Calls(log, x) == Cardinality({ i \in 1..Len(log) : log[i] = x })
\* While it waits, and only then, the leader works on its own part.
Inside(log, i) == Cardinality({ j \in 1..(i - 1) : log[j] = "wait>" }) > Cardinality({ j \in 1..(i - 1) : log[j] = "wait<" })
WaitsOk(log, nm, hnm) == \A i \in 1..Len(log) : log[i] = nm /\ nm # hnm => Inside(log, i)
LeaderOk(s, h, rq, e, code, resp) ==
   IF s.role # "leader" \/ rq.w # 1 \/ rq.k # 2 \/ rq.hp # 1 \/ rq.he # 1 THEN code = INVALID /\ e.fwd = <<>>
   ELSE LET own == PlainCodes(s, rq.keys, rq.fp)
            called == Calls(e.log, "wait>")
        IN /\ Len(e.fwd) = 1 /\ e.fwd[1].w = 1 /\ e.fwd[1].k = 3 /\ e.fwd[1].enc = rq.enc /\ e.fwd[1].keys = <<>>
           /\ WaitsOk(e.log, s.nm, h.nm)
           /\ IF e.scode # OK THEN code = e.scode
              ELSE IF called = 0 THEN code # OK
              ELSE \/ code \in own \ {OK}
                   \/ /\ OK \in own
                      /\ LET sh == Shape(s, rq.keys) IN
                         /\ (code = OK) <=> HasShape(e.sresp.m, sh)
                         /\ code = OK => resp.w = 1 /\ HasShape(resp.m, sh)
Whole(e, s, h) == LET r == reqs[e.r] IN
   /\ Clean(e.rq, e.r) /\ e.rq.w = 1 /\ e.rq.k = 2 /\ e.rq.enc = r.enc /\ Serves(s, e.r) /\ Serves(h, e.r)
   /\ e.parsed = 1 /\ e.inner.keys = r.H /\ e.inner.fp = r.fp /\ e.inner.otp = r.otp
   /\ dbs[s.d].cols = dbs[h.d].cols
Run ==
   /\ Ev.e = "run" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, half, used >>
   /\ LET s == srvs[Ev.l]
          h == srvs[Ev.h]
          r == reqs[Ev.r]
      IN /\ LeaderOk(s, h, Ev.rq, Ev, Ev.code, Ev.resp)
         /\ Ev.hran = 1 => HelperOk(h, Ev.fwd[1], Ev, Ev.hcode, Ev.hresp)
         /\ Ev.kept = 1
         /\ Ev.clean = 1 /\ Ev.cb # "none" /\ Serves(s, Ev.r) /\ Serves(h, Ev.r) /\ s.role = "leader" /\ h.role = "helper"
               /\ s.fail = 0 /\ h.fail = 0 /\ s.seed = h.seed /\ PlainCodes(s, r.L, r.fp) = {OK} /\ dbs[s.d].cols = dbs[h.d].cols
            => Ev.code = OK
         \* what is put together is what was asked for, under the client's mask
         /\ Ev.code = OK /\ Whole(Ev, s, h) =>
               XorAll(XorAll(Ev.resp.m, Ev.sresp.m), Ev.hresp.m) = Masked(r.otp, Records0(dbs[s.d].cols, r.pos))
         /\ resps' = IF Ev.code = OK
                     THEN Put(resps, Ev.id, [r |-> Ev.r, m |-> Ev.resp.m, d |-> s.d,
                                             good |-> Whole(Ev, s, h) /\ Ev.sresp = Ev.hresp])
                     ELSE resps
\* A whole, undisturbed run among others.
MixedRun ==
   /\ Ev.e = "mrun" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, resps, half, used >>
   /\ LET s == srvs[Ev.l]
          h == srvs[Ev.h]
          r == reqs[Ev.r]
      IN r.sealed /\ Serves(s, Ev.r) /\ Serves(h, Ev.r) /\ dbs[s.d].cols = dbs[h.d].cols =>
            /\ Ev.code = OK /\ Masked(r.otp, Ev.resp.m) = Records0(dbs[s.d].cols, r.pos)

(***************************************************************************)
(* The client reads a response.                                             *)
(***************************************************************************)
Take ==
   /\ Ev.e = "take" /\ UNCHANGED << blds, dbs, srvs, clis, reqs, resps, half, used >>
   /\ LET c == clis[Ev.c]
          h == Functions(c)
          m == Ev.resp.m
          want == CASE c.kind = "dense" -> Len(m) [] c.kind = "cuckoo" -> 2 * h * Len(Ev.st.qs) [] c.kind = "simple" -> Len(Ev.st.qs)
          fits == /\ Ev.resp.w = 1 /\ Ev.st.k = StateKind(c.kind) /\ Len(m) = want /\ Len(m) > 0 /\ Len(Ev.st.otp) = 16
          raw == TLCEval(Masked(Ev.st.otp, m))
          ps == [i \in 1..Len(raw) |-> Parse(raw[i])]
      IN IF ~fits THEN Ev.code = INVALID
         ELSE CASE c.kind = "dense" -> Ev.code = OK /\ Ev.res = [i \in 1..Len(raw) |-> << 1, raw[i] >>]
                [] c.kind = "cuckoo" -> Ev.code = OK /\ Ev.res = CuckooResult(h, Ev.st.qs, raw)
                [] c.kind = "simple" ->
                     IF \E i \in 1..Len(ps) : ~ps[i].ok THEN Ev.code \in {OK, INVALID}
                     ELSE IF \E i \in 1..Len(ps) : Len(ps[i].keys) # Len(ps[i].vals) THEN Ev.code = INVALID
                     ELSE Ev.code = OK /\ Ev.res = SimpleResult(Ev.st.qs, raw)
   \* In the end: the records asked for.
   /\ Ev.p \in DOMAIN resps /\ Ev.mut = 0 =>
         LET w == resps[Ev.p]
             d == dbs[w.d]
             r == reqs[w.r]
         IN w.good /\ w.r = Ev.r /\ r.c = Ev.c /\ clis[r.c].p = (IF d.kind = "dense" THEN NoParams ELSE d.p) /\ r.q # <<>> =>
            /\ Ev.code = OK /\ Len(Ev.res) = Len(r.q)
            /\ \A i \in 1..Len(r.q) :
                 CASE d.kind = "dense" -> Ev.res[i][2] = PadTo(d.recs[r.q[i] + 1], MaxLen(d.recs))
                   [] d.kind = "cuckoo" ->
                        ~(EndsInZero(r.q[i]) \/ \E k \in 1..Len(d.recs) : EndsInZero(d.recs[k][1])) =>
                        /\ (Ev.res[i][1] = 1) <=> Stored(d.recs, r.q[i])
                        /\ Ev.res[i][1] = 1 => Ev.res[i][2] = PadTo(ValueOf(d.recs, r.q[i]), Width(d.cols[2]))
                   [] d.kind = "simple" ->
                        /\ (Ev.res[i][1] = 1) <=> Stored(d.recs, r.q[i])
                        /\ Ev.res[i][1] = 1 => \E k \in 1..Len(d.recs) : d.recs[k] = << r.q[i], Ev.res[i][2] >>

--------------------------------------------------------------------------------
(* Answers and keys, bit by bit (evaluated on the state after event l-1).   *)
Prev == Trace[l - 1]
GenExact(e, i) ==
   LET c == clis[e.c]
       lv == Levels(c)
       x == reqs[e.id].pos[i]
       swap == e.rq.keys[i].party = 1
       ka == IF swap THEN e.he.keys[i] ELSE e.rq.keys[i]
       kb == IF swap THEN e.rq.keys[i] ELSE e.he.keys[i]
       beta == ShlW(WordOf(1, 128), x % 128)
       g == TLCEval(Generate(lv, WordOf(x \div 128, 128), << << beta >> >>, ka.s, kb.s))
   IN /\ \A j \in 1..Len(ka.cw) : ka.cw[j].s = g.cw[j].s /\ ka.cw[j].c = g.cw[j].c
      /\ Len(ka.last) = Len(g.last)
      /\ \A k \in 1..Len(g.last) : ValueLeaves(ka.last[k], lv[1].ty) = g.last[k]
\* What a database holds.
BuildExact(e) ==
   LET d == dbs[e.d]
       P == TLCEval(IF d.kind = "dense" THEN <<>> ELSE PosOf(blds[e.id], d.recs))
   IN CASE d.kind = "dense" -> DenseHolds(d.cols[1], d.recs)
        [] d.kind = "cuckoo" -> CuckooHolds(d.cols[1], d.cols[2], d.n, d.recs, P)
        [] d.kind = "simple" -> SimpleHolds(d.cols[1], d.n, d.recs, P)
HelperExact(s, e, resp) == resp.m = Masked(e.inner.otp, Answer(s, e.inner.keys))
(* The bytes that are sent and kept.                                        *)
\* "The first 31 bits of the SHA256 hash of the seed": the digest modulo 2^31 - 1.
Fingerprint(seed) ==
   LET w == WordOfBytes(Sha256(seed), 256)
   IN SubSeq(ModW(w, [i \in 1..Len(w) |-> CASE i = 1 -> 65535 [] i = 2 -> 32767 [] OTHER -> 0]), 1, 2)
ReqWire(e) ==
   /\ LET c == clis[e.c] IN c.kind # "dense" => SubSeq(e.rq.fp, 1, 2) = Fingerprint(c.p.seed)
   /\ e.plain = 0 => e.rqb = WireToLeader(e.rq.keys, e.rq.fp, e.encb)
   \* nothing asked: an empty part or none
   /\ \/ e.plain = 1
      \/ e.heb = WireHelper(e.he.keys, e.he.fp, e.he.otp)
      \/ e.he.keys = <<>> /\ IsZero(e.he.fp) /\ e.heb = BytesAt(2, e.he.otp)
   /\ e.stb = WireState(e.st.k, e.st.otp, e.st.qs)
RunWire(e) ==
   /\ \A i \in 1..Len(e.fwdb) : e.fwdb[i] = WireToHelper(e.encb)
   /\ e.code = OK => e.respb = WireResponse(e.resp.m)
   /\ e.hran = 1 /\ e.hcode = OK => e.hrespb = WireResponse(e.hresp.m)
Exact ==
   IF l = 1 THEN TRUE
   ELSE IF Prev.e \notin {"build", "req", "plain", "help", "run", "views"} THEN TRUE
   ELSE CASE Prev.e = "build" -> Prev.code = OK /\ dbs[Prev.d].n > 0 /\ ~Hollow(dbs[Prev.d].kind, dbs[Prev.d].recs) => BuildExact(Prev)
          [] Prev.e = "views" -> ViewsExact(Prev)
          [] Prev.e = "req" -> Prev.code = OK => /\ \A i \in 1..Len(Prev.rq.keys) : i <= 4 \/ Prev.all = 1 => GenExact(Prev, i)
                                                 /\ Prev.wire = 1 => ReqWire(Prev)
          [] Prev.e = "plain" -> Prev.code = OK => /\ Prev.full = 1 => Prev.resp.m = Answer(srvs[Prev.s], Prev.rq.keys)
                                                   /\ Prev.wire = 1 => Prev.respb = WireResponse(Prev.resp.m)
          [] Prev.e = "help" -> Prev.code = OK /\ Prev.full = 1 => HelperExact(srvs[Prev.s], Prev, Prev.resp)
          [] Prev.e = "run" -> (Prev.wire = 1 => RunWire(Prev)) /\ (Prev.full = 1 =>
                /\ Prev.hran = 1 /\ Prev.hcode = OK => HelperExact(srvs[Prev.h], Prev, Prev.hresp)
                /\ Prev.code = OK => Prev.resp.m = XorAll(Prev.sresp.m, Answer(srvs[Prev.l], Prev.rq.keys)))
Next == l <= Len(Trace) /\ l' = l + 1 /\
        (\/ New \/ Missing \/ NewB \/ Ins \/ CloneB \/ ClearB \/ ParB \/ SubB \/ Build \/ Ip
         \/ GenParams \/ Srv \/ Cli \/ Request \/ Views \/ AFresh \/ AskPlain \/ AskHelper \/ Run \/ MixedRun \/ Take)
Spec == Init /\ [][Next]_vars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
