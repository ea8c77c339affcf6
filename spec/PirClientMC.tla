---------------------------- MODULE PirClientMC ----------------------------
(***************************************************************************)
(* Keyword queries end to end over small databases: any records, any hash   *)
(* functions, any placement a builder may choose, any queried key.  The     *)
(* servers' answers are the buckets asked for.                              *)
(***************************************************************************)
EXTENDS PirDb
CONSTANTS Mode, MaxRecs, NBk, NF
VARIABLES recs, hash, table, query, out
vars == << recs, hash, table, query, out >>
Words2(S, n) == UNION { [1..k -> S] : k \in 0..n }
KeySet == Words2({1, 2}, 2) \ {<<>>}
ValSet == IF Mode = "cuckoo" THEN { <<>>, << 0 >>, << 7, 0 >>, << 3 >> } ELSE { <<>>, << 0 >>, << 10, 0 >>, << 0, 18 >> }
Init == /\ recs = <<>> /\ query \in KeySet /\ hash \in [KeySet -> [1..NF -> 1..NBk]]
        /\ table = [b \in 1..NBk |-> <<>>] /\ out = <<>>
Free(b) == IF Mode = "cuckoo" THEN table[b] = <<>> ELSE TRUE
Add(k, v) == /\ out = <<>> /\ Len(recs) < MaxRecs /\ ~Stored(recs, k)
             /\ \E b \in { hash[k][f] : f \in 1..NF } :
                  Free(b) /\ table' = [table EXCEPT ![b] = Append(@, << k, v >>)]
             /\ recs' = Append(recs, << k, v >>) /\ UNCHANGED << hash, query, out >>
KeyW == MaxLen([i \in 1..Len(recs) |-> recs[i][1]])
ValW == MaxLen([i \in 1..Len(recs) |-> recs[i][2]])
Bytes(b) == Serialised(table[b])
SerW == MaxLen([b \in 1..NBk |-> Bytes(b)])
KeyAt(b) == PadTo(IF table[b] = <<>> THEN <<>> ELSE table[b][1][1], KeyW)
ValAt(b) == PadTo(IF table[b] = <<>> THEN <<>> ELSE table[b][1][2], ValW)
Answer == /\ out = <<>>
          /\ out' = IF Mode = "cuckoo"
                    THEN CuckooResult(NF, << query >>, FlattenSeq([f \in 1..NF |-> << KeyAt(hash[query][f]), ValAt(hash[query][f]) >>]))
                    ELSE SimpleResult(<< query >>, << PadTo(Bytes(hash[query][1]), SerW) >>)
          /\ UNCHANGED << recs, hash, table, query >>
Next == Answer \/ \E k \in KeySet, v \in ValSet : Add(k, v)
Spec == Init /\ [][Next]_vars
Right == out # <<>> =>
   /\ (out[1][1] = 1) <=> Stored(recs, query)
   /\ out[1][1] = 1 => out[1][2] = (IF Mode = "cuckoo" THEN PadTo(ValueOf(recs, query), ValW) ELSE ValueOf(recs, query))
RoundTrip == \A b \in 1..NBk : Mode = "simple" =>
   LET p == Parse(PadTo(Bytes(b), SerW)) IN
   /\ p.ok /\ p.keys = [i \in 1..Len(table[b]) |-> table[b][i][1]] /\ p.vals = [i \in 1..Len(table[b]) |-> table[b][i][2]]
=============================================================================
