------------------------------ MODULE RequestMC ------------------------------
(***************************************************************************)
(* Who sees what in a retrieval.  A client asks for a list of keys; each    *)
(* key hashes to F positions of a table of N bits (dense: F = 1 and every   *)
(* key is its position).  For every position it draws a pair of selections  *)
(* whose XOR is that position alone - what an ideal pair of function shares *)
(* is to the servers - and for every answer a pad.  The leader sees its     *)
(* selections and, in passing, the helper's padded answers; the helper sees *)
(* its selections and the pads.                                             *)
(*   Secret: whatever is asked, the same number of queries gives each       *)
(* server the same views, each from equally many draws.  Ways to go wrong   *)
(* that still return the right records are specified too, and shown not to  *)
(* keep the secret (Told).                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS N, F, MaxK, NumKeys
Pos == 1..N
Keys == 1..NumKeys
Ways == {"right",      \* a pair for every position, a pad for every answer
         "reuse",      \* the same position again: the same pair again
         "skip",       \* the same position again: not asked again
         "onepad",     \* one pad for all answers
         "seedpad",    \* the pads follow from the leader's selections
         "sides"}      \* which server gets which half follows from what is asked
VARIABLES place,       \* where each key hashes
          way, asked, stage, sel, pad, own, masked, got
vars == << place, way, asked, stage, sel, pad, own, masked, got >>
Lists(k) == [1..k -> Keys]
Positions(pl, q) == FlattenSeq([i \in 1..Len(q) |-> pl[q[i]]])
Seen(s, i) == \E j \in 1..(i - 1) : s[j] = s[i]
First(s, i) == CHOOSE j \in 1..i : s[j] = s[i] /\ ~Seen(s, j)
Wanted(w, pl, q) == LET s == Positions(pl, q) IN
   CASE w = "skip" -> FoldLeft(LAMBDA a, x : IF \E j \in 1..Len(a) : a[j] = x THEN a ELSE Append(a, x), <<>>, s)

     [] OTHER -> s
Sum(A) == Cardinality(A) % 2

Rows == SUBSET Pos                        \* a database: the positions that hold 1
\* One draw: a selection and a pad for every place in the list (some ways ignore parts of it).
Draws(n) == [sel : [1..n -> SUBSET Pos], pad : [1..n -> 0..1]]
Leaders(w, s, d) == [i \in 1..Len(s) |->
   CASE w = "reuse" -> d.sel[First(s, i)]
     [] w = "sides" -> IF s[i] % 2 = 1 THEN d.sel[i] ELSE SymDiff(d.sel[i], {s[i]})
     [] OTHER -> d.sel[i]]
Helpers(w, s, d) == [i \in 1..Len(s) |-> SymDiff(Leaders(w, s, d)[i], {s[i]})]
Pads(w, s, d) == [i \in 1..Len(s) |->
   CASE w = "onepad" -> d.pad[1] [] w = "seedpad" -> Cardinality(d.sel[i]) % 2 [] OTHER -> d.pad[i]]
Answers(db, sels) == [i \in 1..Len(sels) |-> Sum(sels[i] \cap db)]
Mask(a, p) == [i \in 1..Len(a) |-> (a[i] + p[i]) % 2]
\* What each server is given, with the label of the half where it shows.
Label(w, s) == IF w = "sides" THEN [i \in 1..Len(s) |-> s[i] % 2] ELSE [i \in 1..Len(s) |-> 0]
LeaderView(w, s, d, db) == << Label(w, s), Leaders(w, s, d), Mask(Answers(db, Helpers(w, s, d)), Pads(w, s, d)) >>
HelperView(w, s, d) == << Label(w, s), Helpers(w, s, d), Pads(w, s, d) >>
LV(w, s, db) == { LeaderView(w, s, d, db) : d \in Draws(Len(s)) }
HV(w, s) == { HelperView(w, s, d) : d \in Draws(Len(s)) }
\* The right way wastes no draw: as many views as draws, so all views are equally likely.
Plenty(w, s, db) == /\ Cardinality(LV(w, s, db)) = Cardinality(Draws(Len(s)))
                    /\ Cardinality(HV(w, s)) = Cardinality(Draws(Len(s)))
Blind(w, pl, k, db) == \A q, r \in Lists(k) :
   LET s == Wanted(w, pl, q)
       t == Wanted(w, pl, r)
   IN LV(w, s, db) = LV(w, t, db) /\ HV(w, s) = HV(w, t) /\ Plenty(w, s, db)
--------------------------------------------------------------------------------
Init == /\ place \in [Keys -> [1..F -> Pos]] /\ way \in Ways
        /\ asked \in UNION { Lists(k) : k \in 1..MaxK }
        /\ stage = "ask" /\ sel = <<>> /\ pad = <<>> /\ own = <<>> /\ masked = <<>> /\ got = <<>>
Want == Wanted(way, place, asked)
Ask == /\ stage = "ask" /\ stage' = "answer"
       /\ \E d \in Draws(Len(Want)) : /\ sel' = << Leaders(way, Want, d), Helpers(way, Want, d) >>
                                      /\ pad' = Pads(way, Want, d)
       /\ UNCHANGED << place, way, asked, own, masked, got >>
AnswerAll == /\ stage = "answer" /\ stage' = "read"
             /\ \E db \in Rows : /\ own' = << db, Answers(db, sel[1]) >>
                                 /\ masked' = Mask(Answers(db, sel[2]), pad)
             /\ UNCHANGED << place, way, asked, sel, pad, got >>
Read == /\ stage = "read" /\ stage' = "done"
        /\ got' = Mask(Mask(own[2], masked), pad)
        /\ UNCHANGED << place, way, asked, sel, pad, own, masked >>
Next == Ask \/ AnswerAll \/ Read
Spec == Init /\ [][Next]_vars
\* Every way returns the records: no test of answers tells them apart.
Right == stage = "done" => got = [i \in 1..Len(Want) |-> IF Want[i] \in own[1] THEN 1 ELSE 0]
\* Only the right one keeps the secret, from every placement and for every database.
Secret == stage = "ask" /\ way = "right" => \A db \in Rows : Blind(way, place, Len(asked), db)
Told == stage = "ask" /\ way # "right" /\ Len(asked) = MaxK /\ MaxK > 1 /\ (\E i, j \in Keys : place[i] # place[j])
        => \E db \in Rows : ~Blind(way, place, Len(asked), db)
=============================================================================
