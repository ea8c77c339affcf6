------------------------------- MODULE PirMC -------------------------------
(***************************************************************************)
(* The two-server protocol with everything that can go wrong in it, over    *)
(* records that are numbers below 2^B under XOR.  Several requests are in   *)
(* progress at once; every step of every participant is a transition.       *)
(* Queries are kept as selections; the helper's are hidden in an envelope   *)
(* only the helper can open.  What the leader sees is recorded.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC, Json
CONSTANTS N, B, Reqs, Cbs, Faults, Decs, PrintScripts
VARIABLES db,      \* position -> record (both servers hold the same)
          st       \* request -> its progress
vars == << db, st >>
X(a, b) == a ^^ b
Sum(sel) == FoldLeft(LAMBDA acc, i : IF i \in sel THEN X(acc, db[i]) ELSE acc, 0, [i \in 1..N |-> i])
Vals == 0..(2^B - 1)
Idle == [pc |-> "idle", idx |-> 0, selL |-> {}, selH |-> {}, pad |-> 0, cb |-> "", fault |-> "", dec |-> "",
         own |-> -1, called |-> 0, hresp |-> << "none", 0 >>, sresp |-> << "none", 0 >>, result |-> << "none", 0 >>]
Init == db \in [1..N -> Vals] /\ st = [r \in Reqs |-> Idle]
Go(r, s) == st' = [st EXCEPT ![r] = s] /\ db' = db
\* The client: a random split of the wanted position, a fresh pad; and the plan of faults.
Ask(r) == /\ st[r].pc = "idle"
          /\ \E i \in 1..N, selL \in SUBSET (1..N), pad \in Vals, c \in Cbs, f \in Faults, d \in Decs :
               Go(r, [st[r] EXCEPT !.pc = "leader", !.idx = i, !.selL = selL, !.selH = (selL \ {i}) \cup ({i} \ selL),
                                   !.pad = pad, !.cb = c, !.fault = f, !.dec = d])
\* The leader hands the envelope to the sender, which may run the callback now, later or never.
Sending(r) == st[r].pc = "leader" /\ Go(r, [st[r] EXCEPT !.pc = IF st[r].cb \in {"before", "twice"} THEN "wait1" ELSE "sent"])
Waiting(r) == \/ st[r].pc = "wait1" /\ Go(r, [st[r] EXCEPT !.pc = "sent", !.own = Sum(st[r].selL), !.called = @ + 1])
              \/ st[r].pc = "wait2" /\ Go(r, [st[r] EXCEPT !.pc = "back", !.own = Sum(st[r].selL), !.called = @ + 1])
Helping(r) == /\ st[r].pc = "sent"
              /\ LET s == st[r]
                     h == IF s.fault = "unreached" THEN << "none", 0 >>
                          ELSE IF s.dec = "fails" THEN << "error", 0 >> ELSE << "items", X(Sum(s.selH), s.pad) >>
                     w == CASE s.fault = "unreached" -> << "error", 0 >>
                            [] h[1] = "error" -> h
                            [] s.fault \in {"drop", "add", "short", "long", "empty"} -> << "misfit", 0 >>
                            [] s.fault = "flip" -> << "items", X(h[2], 1) >>
                            [] OTHER -> h
                 IN Go(r, [s EXCEPT !.hresp = h, !.sresp = w, !.pc = IF s.cb \in {"after", "twice"} THEN "wait2" ELSE "back"])
Combining(r) == /\ st[r].pc = "back"
                /\ LET s == st[r] IN
                   Go(r, [s EXCEPT !.pc = "done",
                                   !.result = IF s.sresp[1] # "items" \/ s.called = 0 THEN << "error", 0 >>
                                              ELSE << "value", X(X(s.own, s.sresp[2]), s.pad) >>])   \* the pad: taken off by the client
Next == \E r \in Reqs : Ask(r) \/ Sending(r) \/ Waiting(r) \/ Helping(r) \/ Combining(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done(r) == st[r].pc = "done"
Harmless(s) == s.fault = "none" /\ s.dec = "ok" /\ s.cb # "none"
RightOrError == \A r \in Reqs : Done(r) => \/ st[r].result[1] = "error"
                                           \/ st[r].result[2] = db[st[r].idx]
                                           \/ st[r].fault = "flip" /\ st[r].result[2] = X(db[st[r].idx], 1)
NoFaultNoError == \A r \in Reqs : Done(r) /\ Harmless(st[r]) => st[r].result = << "value", db[st[r].idx] >>
FaultIsError == \A r \in Reqs : Done(r) /\ ~Harmless(st[r]) /\ st[r].fault # "flip" => st[r].result[1] = "error"
\* Whatever the leader sees of the helper's answer, every other record could have produced, with another pad.
Blind == \A r \in Reqs : Done(r) /\ st[r].hresp[1] = "items" =>
            \A v \in Vals : \E p \in Vals : X(v, p) = st[r].hresp[2]
Terminates == \A r \in Reqs : (st[r].pc = "leader") ~> Done(r)
Script == (PrintScripts /\ \A r \in Reqs : Done(r)) =>
             \A r \in Reqs : PrintT("@@" \o ToJson([cb |-> st[r].cb, fault |-> st[r].fault, dec |-> st[r].dec]))
=============================================================================
