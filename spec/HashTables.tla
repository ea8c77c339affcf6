---------------------------- MODULE HashTables ----------------------------
(***************************************************************************)
(* The three hash tables of pir/hashing.  Elements are numbers 1..NumElems; *)
(* cfg.h[f][e] is the bucket (1-based) function f assigns to element e.     *)
(*                                                                         *)
(* cfg: [kind |-> "cuckoo" | "simple" | "multi", nb, nf, h,                 *)
(*       mr |-> max relocations, ms |-> size limit or -1 for none]          *)
(* tbl: tuple of nb buckets, each a tuple of elements; stash: a tuple.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

OK == 0   INVALID == 3   INTERNAL == 13

\* Codes of table creation.
CreateCode(kind, nb, nf, mr, ms) ==
   CASE nb <= 0 -> INVALID
     [] kind = "simple" -> IF nf < 0 \/ nf = 0 \/ (ms # -1 /\ ms <= 0) THEN INVALID ELSE OK
     [] kind = "multi"  -> IF nf < 2 \/ (ms # -1 /\ ms <= 0) THEN INVALID ELSE OK
     [] OTHER -> IF nf < 2 \/ mr < 0 \/ (ms # -1 /\ ms < 0) THEN INVALID ELSE OK

Empty(nb) == [b \in 1..nb |-> <<>>]
Put(tbl, b, e) == [tbl EXCEPT ![b] = Append(@, e)]

(***************************************************************************)
(* Cuckoo table.  One step of the eviction walk: the pending element goes   *)
(* to the bucket of some function f; whoever was there becomes pending.     *)
(* cur = 0 means the walk is over.                                          *)
(***************************************************************************)
Relocate(c, tbl, cur, f) ==
   LET b == c.h[f][cur]
   IN IF tbl[b] = <<>> THEN << [tbl EXCEPT ![b] = <<cur>>], 0 >>
      ELSE << [tbl EXCEPT ![b] = <<cur>>], tbl[b][1] >>

\* All configurations <<table, pending>> after at most mr steps from inserting e.
WalkStep(c, S) == UNION { IF s[2] = 0 THEN {s}
                          ELSE { Relocate(c, s[1], s[2], f) : f \in 1..c.nf } : s \in S }
Walk(c, tbl, e) == FoldLeft(LAMBDA S, i : WalkStep(c, S), { << tbl, e >> }, [i \in 1..c.mr |-> i])

StashFull(c, stash) == c.ms # -1 /\ Len(stash) >= c.ms
\* The possible outcomes <<code, table, stash>> of inserting e.
CuckooOutcomes(c, tbl, stash, e) ==
   { IF s[2] = 0 THEN << OK, s[1], stash >>
     ELSE IF StashFull(c, stash) THEN << INTERNAL, s[1], stash >>
     ELSE << OK, s[1], Append(stash, s[2]) >> : s \in Walk(c, tbl, e) }

\* The same for long walks, as a predicate that does not enumerate them.
Elems(tbl, stash) == FlattenSeq(tbl) \o stash
Count(seq, x) == Cardinality({ i \in 1..Len(seq) : seq[i] = x })
Home(c, tbl) == \A b \in 1..Len(tbl) : /\ Len(tbl[b]) <= 1
                                      /\ \A i \in 1..Len(tbl[b]) :
                                            \E f \in 1..c.nf : c.h[f][tbl[b][i]] = b
(* If every element could go to some empty bucket right away, each step finds room with chance at least 1/nf, so *)
(* the walk does not last: (1 - 1/nf)^mr is below 2^-40 for the walks meant here.                                *)
Roomy(c, tbl, e) == /\ c.mr >= 28 * c.nf
                    /\ \A x \in ToSet(FlattenSeq(tbl)) \cup {e} : \E f \in 1..c.nf : tbl[c.h[f][x]] = <<>>
(* tbl satisfies Home; only the buckets that differ need to be looked at. *)
CuckooLongOk(c, tbl, stash, e, code, tbl2, stash2) ==
   LET D == TLCEval({ b \in 1..c.nb : tbl[b] # tbl2[b] })
       ds == SetToSeq(D)
       old == FlattenSeq([i \in 1..Len(ds) |-> tbl[ds[i]]]) \o <<e>>
       add == SubSeq(stash2, Len(stash) + 1, Len(stash2))
       new == FlattenSeq([i \in 1..Len(ds) |-> tbl2[ds[i]]]) \o add
       all == ToSet(old)
       lost == { x \in all : Count(new, x) # Count(old, x) }
       filled == { b \in D : tbl[b] = <<>> }
   IN /\ Len(tbl2) = Len(tbl)
      /\ \A b \in D : /\ Len(tbl2[b]) = 1             \* a walk never empties a bucket
                      /\ \E f \in 1..c.nf : c.h[f][tbl2[b][1]] = b
      /\ ToSet(new) \subseteq all
      /\ Cardinality(D) <= c.mr
      /\ SubSeq(stash2, 1, Len(stash)) = stash
      /\ \/ code = OK /\ add = <<>> /\ lost = {} /\ Cardinality(filled) = 1
         \/ /\ code = OK /\ ~StashFull(c, stash) /\ lost = {} /\ filled = {} /\ Len(add) = 1
            /\ (Roomy(c, tbl, e)) = FALSE
         \/ /\ code = INTERNAL /\ StashFull(c, stash) /\ add = <<>> /\ filled = {}
            /\ \E x \in all : lost = {x} /\ Count(new, x) = Count(old, x) - 1
            /\ (Roomy(c, tbl, e)) = FALSE

(***************************************************************************)
(* Simple and multiple-choice tables.                                       *)
(***************************************************************************)
Full(c, tbl, b) == c.ms # -1 /\ Len(tbl[b]) >= c.ms
SimpleOutcome(c, tbl, e) ==
   IF /\ c.ms # -1
      /\ \E b \in 1..c.nb : LET m == Cardinality({ f \in 1..c.nf : c.h[f][e] = b })
                           IN m > 0 /\ Len(tbl[b]) + m > c.ms
   THEN << INTERNAL, tbl >>
   ELSE << OK, FoldLeft(LAMBDA t, f : Put(t, c.h[f][e], e), tbl, [f \in 1..c.nf |-> f]) >>

LeastLoaded(c, tbl, e) ==      \* the first function among those of least load
   CHOOSE f \in 1..c.nf :
      /\ \A g \in 1..c.nf : Len(tbl[c.h[f][e]]) <= Len(tbl[c.h[g][e]])
      /\ \A g \in 1..(f - 1) : Len(tbl[c.h[f][e]]) < Len(tbl[c.h[g][e]])
MultiOutcome(c, tbl, e) ==
   LET b == c.h[LeastLoaded(c, tbl, e)][e]
   IN IF Full(c, tbl, b) THEN << INTERNAL, tbl >> ELSE << OK, Put(tbl, b, e) >>

\* All outcomes <<code, table, stash>> of inserting e, for any kind.
Outcomes(c, tbl, stash, e) ==
   CASE c.kind = "cuckoo" -> CuckooOutcomes(c, tbl, stash, e)
     [] c.kind = "simple" -> { SimpleOutcome(c, tbl, e) \o << stash >> }
     [] OTHER -> { MultiOutcome(c, tbl, e) \o << stash >> }

(***************************************************************************)
(* What users rely on, as state predicates over a history of insertions.    *)
(* ins: inserted elements in order; ok: those whose insertion succeeded;    *)
(* nfail: number of refused insertions.                                     *)
(***************************************************************************)
CuckooSafe(c, tbl, stash, ins, nfail) ==
   /\ Home(c, tbl)
   /\ c.ms # -1 => Len(stash) <= c.ms
   /\ LET now == Elems(tbl, stash)
      IN /\ \A x \in ToSet(now) : Count(now, x) <= Count(ins, x)
         /\ Len(now) = Len(ins) - nfail
SimpleSafe(c, tbl, oks) ==
   \A b \in 1..c.nb :
      /\ c.ms # -1 => Len(tbl[b]) <= c.ms
      /\ tbl[b] = FlattenSeq([i \in 1..Len(oks) |->
                     [k \in 1..Cardinality({ f \in 1..c.nf : c.h[f][oks[i]] = b }) |-> oks[i]]])
MultiSafe(c, tbl, oks) ==
   /\ Len(FlattenSeq(tbl)) = Len(oks)
   /\ \A x \in ToSet(oks) : Count(FlattenSeq(tbl), x) = Count(oks, x)
   /\ \A b \in 1..c.nb : /\ c.ms # -1 => Len(tbl[b]) <= c.ms
                         /\ \A i \in 1..Len(tbl[b]) : \E f \in 1..c.nf : c.h[f][tbl[b][i]] = b
=============================================================================
