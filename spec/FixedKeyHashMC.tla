-------------------------- MODULE FixedKeyHashMC --------------------------
(***************************************************************************)
(* The batched, in-place evaluation of the fixed-key hash over a memory of  *)
(* N cells, for every placement of input and output ranges (also partially  *)
(* overlapping) and every length; several evaluations share the object in   *)
(* any interleaving, each with its own memory.                             *)
(* Values are symbolic: <<i,0>> initially in cell i, <<i,k+1>> its hash.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Batch, Threads
VARIABLES job, mem, done, pc, scratch
vars == << job, mem, done, pc, scratch >>
H(v) == << v[1], v[2] + 1 >>
Mem0 == [i \in 0..(N - 1) |-> << i, 0 >>]
Jobs == { j \in [oi : 0..(N - 1), oo : 0..(N - 1), n : 0..N] : j.oi + j.n <= N /\ j.oo + j.n <= N }
Init == /\ job \in [Threads -> Jobs]
        /\ mem = [t \in Threads |-> Mem0]
        /\ done = [t \in Threads |-> 0]          \* blocks finished
        /\ pc = [t \in Threads |-> "read"]
        /\ scratch = [t \in Threads |-> <<>>]
Back(t) == job[t].oo > job[t].oi                 \* overlapping forwards: last batch first
NB(t) == (job[t].n + Batch - 1) \div Batch
Start(t) == LET k == done[t] IN IF Back(t) THEN (NB(t) - 1 - k) * Batch ELSE k * Batch
Size(t) == LET r == job[t].n - Start(t) IN IF r < Batch THEN r ELSE Batch
Read(t) == /\ pc[t] = "read" /\ done[t] < NB(t)
           /\ scratch' = [scratch EXCEPT ![t] =
                            [i \in 1..Size(t) |-> mem[t][job[t].oi + Start(t) + i - 1]]]
           /\ pc' = [pc EXCEPT ![t] = "write"] /\ UNCHANGED << job, mem, done >>
Write(t) == /\ pc[t] = "write"
            /\ mem' = [mem EXCEPT ![t] = [c \in 0..(N - 1) |->
                         LET i == c - job[t].oo - Start(t) + 1
                         IN IF i >= 1 /\ i <= Size(t) THEN H(scratch[t][i]) ELSE @[c]]]
            /\ done' = [done EXCEPT ![t] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED << job, scratch >>
Next == \E t \in Threads : Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars
Correct == \A t \in Threads : done[t] = NB(t) =>
   \A c \in 0..(N - 1) :
      mem[t][c] = IF c >= job[t].oo /\ c < job[t].oo + job[t].n
                  THEN H(Mem0[c - job[t].oo + job[t].oi]) ELSE Mem0[c]
=============================================================================
