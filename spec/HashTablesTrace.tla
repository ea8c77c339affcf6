-------------------------- MODULE HashTablesTrace --------------------------
(***************************************************************************)
(* Accepts a recorded history of the real tables iff every call is one the  *)
(* specification allows.                                                   *)
(***************************************************************************)
EXTENDS HashTables, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
UpTo(n) == [i \in 1..n |-> i]
VARIABLES l, cfg, tbl, stash
vars == << l, cfg, tbl, stash >>
Ev == Trace[l]

\* The recorded table: written in full, or (large tables) its occupied buckets only.
Recorded == IF "tbl" \in DOMAIN Ev THEN Ev.tbl
            ELSE LET at == Ev.at
                     b == [i \in 1..Len(at) |-> at[i][1]]
                     ix == FoldLeft(LAMBDA f, i : [f EXCEPT ![b[i]] = at[i][2]], Empty(Ev.len), UpTo(Len(at)))
                 IN ix

Init == l = 1 /\ cfg = [kind |-> "none"] /\ tbl = <<>> /\ stash = <<>>
New == /\ Ev.e = "new"
       /\ Ev.code = CreateCode(Ev.kind, Ev.nb, Ev.nf, Ev.mr, Ev.ms)
       /\ cfg' = IF Ev.code = OK THEN [kind |-> Ev.kind, nb |-> Ev.nb, nf |-> Ev.nf, mr |-> Ev.mr,
                                       ms |-> Ev.ms, h |-> Ev.h]
                 ELSE [kind |-> "none"]
       /\ tbl' = (IF Ev.code = OK THEN Empty(Ev.nb) ELSE <<>>) /\ stash' = <<>>
       /\ (Ev.code = OK => Recorded = tbl' /\ Ev.stash = stash')
Insert == /\ Ev.e = "ins" /\ cfg.kind # "none"
          /\ tbl' = TLCEval(Recorded)
          /\ IF cfg.kind = "cuckoo" /\ cfg.mr > 8
             THEN CuckooLongOk(cfg, tbl, stash, Ev.k, Ev.code, tbl', Ev.stash)
             ELSE << Ev.code, tbl', Ev.stash >> \in Outcomes(cfg, tbl, stash, Ev.k)
          /\ stash' = Ev.stash /\ cfg' = cfg
Next == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Insert)
Spec == Init /\ [][Next]_vars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
