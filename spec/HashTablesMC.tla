--------------------------- MODULE HashTablesMC ---------------------------
(***************************************************************************)
(* Bounded model: every table configuration over NB buckets and NF hash     *)
(* functions, every assignment of hash values, every insertion history of   *)
(* up to MaxIns of NE elements (repetitions included), with the cuckoo      *)
(* eviction walk as separate steps.                                         *)
(***************************************************************************)
EXTENDS HashTables, Json
CONSTANTS Kind, NB, NF, NE, MaxIns, MaxReloc, Limits, PrintScripts

VARIABLES cfg, tbl, stash,
          cur, steps,           \* eviction walk in progress (cuckoo)
          ins, oks, nfail       \* history
vars == << cfg, tbl, stash, cur, steps, ins, oks, nfail >>

HashAssignments == [1..NF -> [1..NE -> 1..NB]]
Init == /\ cfg \in { [kind |-> Kind, nb |-> NB, nf |-> NF, h |-> h, mr |-> m, ms |-> IF s = 99 THEN -1 ELSE s] :
                       h \in HashAssignments, m \in 0..MaxReloc, s \in Limits }
        /\ tbl = Empty(NB) /\ stash = <<>> /\ cur = 0 /\ steps = 0
        /\ ins = <<>> /\ oks = <<>> /\ nfail = 0

Begin(e) == /\ Kind = "cuckoo" /\ cur = 0 /\ Len(ins) < MaxIns
            /\ cur' = e /\ steps' = 0 /\ ins' = Append(ins, e)
            /\ UNCHANGED << cfg, tbl, stash, oks, nfail >>
Evict(f) == /\ cur # 0 /\ steps < cfg.mr
            /\ LET r == Relocate(cfg, tbl, cur, f)
               IN tbl' = r[1] /\ cur' = r[2]
            /\ steps' = steps + 1
            /\ UNCHANGED << cfg, stash, ins, oks, nfail >>
GiveUp == /\ cur # 0 /\ steps = cfg.mr /\ cur' = 0
          /\ IF StashFull(cfg, stash) THEN stash' = stash /\ nfail' = nfail + 1
             ELSE stash' = Append(stash, cur) /\ nfail' = nfail
          /\ UNCHANGED << cfg, tbl, steps, ins, oks >>
Insert(e) == /\ Kind # "cuckoo" /\ Len(ins) < MaxIns
             /\ \E o \in Outcomes(cfg, tbl, stash, e) :
                  /\ tbl' = o[2] /\ stash' = o[3]
                  /\ IF o[1] = OK THEN oks' = Append(oks, e) /\ nfail' = nfail
                     ELSE oks' = oks /\ nfail' = nfail + 1
             /\ ins' = Append(ins, e) /\ UNCHANGED << cfg, cur, steps >>
Next == (\E e \in 1..NE : Begin(e) \/ Insert(e)) \/ (\E f \in 1..NF : Evict(f)) \/ GiveUp
Spec == Init /\ [][Next]_vars

Safe == cur = 0 =>
   CASE Kind = "cuckoo" -> CuckooSafe(cfg, tbl, stash, ins, nfail)
     [] Kind = "simple" -> SimpleSafe(cfg, tbl, oks)
     [] OTHER -> MultiSafe(cfg, tbl, oks)
\* During a walk nothing is lost either: the pending element is the only one missing.
WalkSafe == cur # 0 => /\ Home(cfg, tbl)
                       /\ Len(Elems(tbl, stash)) + 1 + nfail = Len(ins)
\* The one-step outcome sets used on traces are exactly the stepwise walk.
LongAgrees == (Kind = "cuckoo" /\ cur = 0 /\ Len(ins) < MaxIns) =>
   \A e \in 1..NE : \A o \in CuckooOutcomes(cfg, tbl, stash, e) :
      CuckooLongOk(cfg, tbl, stash, e, o[1], o[2], o[3])

\* One script per configuration and insertion history of full length.
Script == (PrintScripts /\ Len(ins) = MaxIns /\ cur = 0) =>
             PrintT("@@" \o ToJson([cfg |-> cfg, ins |-> ins]))
=============================================================================
