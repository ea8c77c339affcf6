------------------------------ MODULE PirDbMC ------------------------------
(***************************************************************************)
(* Builders as state machines: up to NB builders of one kind, inserting,    *)
(* cloning, clearing, setting parameters and building in any order, the     *)
(* cuckoo placement step by step.  What was inserted (the ghost history of  *)
(* each builder) is kept apart from what the builder stores.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Kind, Builders, Keys, NBk, NF, MaxOps, MaxDbs, PrintScripts
VARIABLES hash,     \* key -> << buckets >>
          blds,     \* builder -> [recs, built, par]; 0 where there is none
          dbs,      \* built databases: [table, held (ghost: records held by the builder then)]
          work,     \* placement in progress: [b, todo, table, cur]; 0 if none
          hist
vars == << hash, blds, dbs, work, hist >>
View == << hash, blds, dbs, work, Len(hist) >>
None == [b |-> 0, todo |-> <<>>, table |-> << >>, cur |-> 0, steps |-> 0]
Init == /\ hash \in [Keys -> [1..NF -> 1..NBk]]
        /\ blds = [b \in Builders |-> [live |-> b = 1, recs |-> <<>>, built |-> FALSE, par |-> FALSE]]
        /\ dbs = <<>> /\ work = None /\ hist = <<>>
Idle == work.b = 0 /\ Len(hist) < MaxOps
Log(op) == hist' = Append(hist, op)
Insert(b, k) == /\ Idle /\ blds[b].live
                /\ blds' = [blds EXCEPT ![b].recs = Append(@, << k, Len(hist) >>)]
                /\ Log([op |-> "ins", b |-> b, k |-> k]) /\ UNCHANGED << hash, dbs, work >>
Clone(b, c) == /\ Idle /\ blds[b].live /\ b # c
               /\ blds' = [blds EXCEPT ![c] = blds[b]]
               /\ Log([op |-> "clone", b |-> b, k |-> c]) /\ UNCHANGED << hash, dbs, work >>
Clear(b) == /\ Idle /\ blds[b].live
            /\ blds' = [blds EXCEPT ![b].recs = <<>>, ![b].built = FALSE]
            /\ Log([op |-> "clear", b |-> b, k |-> 0]) /\ UNCHANGED << hash, dbs, work >>
Params(b) == /\ Idle /\ blds[b].live /\ Kind # "dense" /\ ~blds[b].par
             /\ blds' = [blds EXCEPT ![b].par = TRUE]
             /\ Log([op |-> "par", b |-> b, k |-> 0]) /\ UNCHANGED << hash, dbs, work >>
FirstOnes(recs) == FoldLeft(LAMBDA acc, r : IF \E i \in 1..Len(acc) : acc[i][1] = r[1] THEN acc ELSE Append(acc, r), <<>>, recs)
Held(b) == IF Kind = "cuckoo" THEN FirstOnes(blds[b].recs) ELSE blds[b].recs
Empty == [i \in 1..NBk |-> <<>>]
Build(b) ==
   /\ Idle /\ blds[b].live /\ Len(dbs) < MaxDbs
   /\ Log([op |-> "build", b |-> b, k |-> Len(hist)])
   /\ blds' = [blds EXCEPT ![b].built = TRUE]
   /\ IF blds[b].built \/ (Kind # "dense" /\ ~blds[b].par) THEN UNCHANGED << dbs, work >>
      ELSE CASE Kind = "dense" -> dbs' = Append(dbs, [table |-> Held(b), held |-> Held(b)]) /\ work' = work
             [] Kind = "simple" ->
                  /\ dbs' = Append(dbs, [table |-> FoldLeft(LAMBDA t, r : [t EXCEPT ![hash[r[1]][1]] = Append(@, r)], Empty, Held(b)),
                                         held |-> Held(b)])
                  /\ work' = work
             [] Kind = "cuckoo" -> dbs' = dbs /\ work' = [b |-> b, todo |-> Held(b), table |-> Empty, cur |-> <<>>, steps |-> 0]
   /\ UNCHANGED hash
\* Placing the next record, or moving the one just evicted.
Place == /\ work.b # 0 /\ UNCHANGED << hash, blds, hist >>
         /\ IF work.cur = <<>> /\ work.todo = <<>>
            THEN dbs' = Append(dbs, [table |-> work.table, held |-> Held(work.b)]) /\ work' = None
            ELSE LET r == IF work.cur = <<>> THEN Head(work.todo) ELSE work.cur
                     rest == IF work.cur = <<>> THEN Tail(work.todo) ELSE work.todo
                 IN \E f \in 1..NF :
                      LET at == hash[r[1]][f] IN
                      /\ work' = [work EXCEPT !.todo = rest, !.table[at] = << r >>,
                                              !.cur = IF work.table[at] = <<>> THEN <<>> ELSE work.table[at][1]]
                      /\ dbs' = dbs
\* No room: refused.
Fail == /\ work.b # 0 /\ work.cur # <<>> /\ work' = None /\ UNCHANGED << hash, blds, dbs, hist >>
Next == \/ \E b \in Builders : (\E k \in Keys : Insert(b, k)) \/ Clear(b) \/ Params(b) \/ Build(b) \/ (\E c \in Builders : Clone(b, c))
        \/ Place \/ Fail
Spec == Init /\ [][Next]_vars

Sorted(t) == IF Kind = "dense" THEN t ELSE FlattenSeq(t)
SameElements(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
\* Nothing lost, changed, added; dense records stay in order; hashed ones are where their key says.
Holds == \A i \in 1..Len(dbs) :
   /\ SameElements(Sorted(dbs[i].table), dbs[i].held)
   /\ Kind = "dense" => dbs[i].table = dbs[i].held
   /\ Kind # "dense" => \A b \in 1..NBk : \A j \in 1..Len(dbs[i].table[b]) : \E f \in 1..NF : hash[dbs[i].table[b][j][1]][f] = b
\* While a record is being moved it is the only one missing.
Moving == work.b # 0 =>
   Len(FlattenSeq(work.table)) + Len(work.todo) + (IF work.cur = <<>> THEN 0 ELSE 1) = Len(Held(work.b))
\* A builder that has built stays so until cleared.
Once == [][\A b \in Builders : blds[b].built /\ ~blds'[b].built => blds'[b].recs = <<>> \/ \E c \in Builders : blds'[b] = blds[c]]_vars
Script == (PrintScripts /\ Len(hist) = MaxOps /\ work.b = 0) => PrintT("@@" \o ToJson(hist))
=============================================================================
