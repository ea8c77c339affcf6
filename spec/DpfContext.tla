----------------------------- MODULE DpfContext -----------------------------
(***************************************************************************)
(* Incremental evaluation of one key: what a context remembers, which calls *)
(* it accepts and which positions a call answers for.  Levels are numbered  *)
(* from 1; lv[h] = [ld, tl, ..].  A context is                              *)
(*   [prev  |-> level of the last evaluation (0: none yet),                 *)
(*    at    |-> level whose prefixes are remembered (0: none),              *)
(*    known |-> those prefixes, bad |-> malformed]                          *)
(* Verdicts are sets of allowed answers.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Shr(_,_), IsZ(_)    \* points: shift right, test for zero

Fresh == [prev |-> 0, at |-> 0, known |-> {}, bad |-> FALSE]
SeqSet(q) == {q[i] : i \in 1..Len(q)}
InDomain(lv, p, h) == lv[h].ld >= 128 \/ IsZ(Shr(p, lv[h].ld))
Anc(lv, p, from, to) == Shr(p, lv[from].ld - lv[to].ld)
Tree(lv, p, h) == Shr(p, lv[h].ld - lv[h].tl)

\* Do the remembered prefixes cover these (prefixes of level `from`)?  A prefix that only shares a
\* packed block with a remembered one may or may not be refused.
Cover(lv, c, ps, from) ==
   IF c.at = 0 THEN {TRUE}
   ELSE LET a == {Anc(lv, p, from, c.at) : p \in ps}
            trees == {Tree(lv, q, c.at) : q \in c.known}
        IN IF a \subseteq c.known THEN {TRUE}
           ELSE IF \A p \in a : Tree(lv, p, c.at) \in trees THEN {TRUE, FALSE} ELSE {FALSE}

\* An expansion has fewer than 2^63 positions.
MaxGap == 62
TooMany(n, gap) == gap > MaxGap \/ IF 63 - gap > 30 THEN FALSE ELSE n >= 2^(63 - gap)
\* typeOk: the caller's value type is the declared one; vcOk: the key's correction of level h is usable.
UntilVerdict(lv, c, h, pre, typeOk, vcOk) ==
   IF \/ c.bad
      \/ h < 1 \/ h > Len(lv)
      \/ c.prev >= Len(lv)
      \/ ~typeOk
      \/ h <= c.prev
      \/ (c.prev < 1) # (pre = <<>>)
      \/ pre # <<>> /\ \E i \in 1..Len(pre) : ~InDomain(lv, pre[i], c.prev)
      \/ TooMany(IF pre = <<>> THEN 1 ELSE Len(pre), lv[h].ld - (IF pre = <<>> THEN 0 ELSE lv[c.prev].ld))
      \/ ~vcOk
   THEN {FALSE}
   ELSE IF pre = <<>> THEN {TRUE} ELSE Cover(lv, c, SeqSet(pre), c.prev)
AfterUntil(c, h, pre) ==
   IF pre = <<>> THEN [c EXCEPT !.prev = h]
   ELSE [c EXCEPT !.prev = h, !.at = c.prev, !.known = SeqSet(pre)]

AtVerdict(lv, c, h, pts, typeOk, vcOk) ==
   IF \/ c.bad /\ pts # <<>>
      \/ h < 1 \/ h > Len(lv)
      \/ ~typeOk
      \/ \E i \in 1..Len(pts) : ~InDomain(lv, pts[i], h)
   THEN {FALSE}
   ELSE IF pts = <<>> THEN (IF c.bad THEN {TRUE, FALSE} ELSE {TRUE})   \* nothing is asked: nothing can be wrong
   ELSE IF ~vcOk THEN {FALSE}
   ELSE IF c.at > h THEN {TRUE, FALSE}        \* going back up is not promised
   ELSE LET v == Cover(lv, c, SeqSet(pts), h) IN
        \* after the last level nothing is left to refine: whether prefixes are still remembered then
        \* (and a point off them refused) or evaluation starts again from the root is left open
        IF c.prev >= Len(lv) THEN {TRUE} \cup v ELSE v
AfterAt(c, h, pts) == IF pts = <<>> THEN c ELSE [c EXCEPT !.prev = h, !.at = h, !.known = SeqSet(pts)]
=============================================================================
