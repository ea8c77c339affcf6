----------------------------- MODULE StreamsMC -----------------------------
(***************************************************************************)
(* Counter-mode generator with block size B and counter modulus M: state    *)
(* (counter, buffered block, bytes used), as the code keeps it, against the *)
(* stream it must produce, for every sequence of request sizes.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt
CONSTANTS B, M, MaxReq, MaxLen, PrintScripts
VARIABLES nonce, ctr, num, pos, reqs, outp
vars == << nonce, ctr, num, pos, reqs, outp >>
Byte(c, i) == << c % M, i >>                       \* byte i of the block of counter c
Stream(n0, p) == Byte(n0 + p \div B, p % B)
Init == /\ nonce \in 0..(M - 1) /\ ctr = nonce /\ num = 0 /\ pos = 0 /\ reqs = <<>> /\ outp = <<>>
\* One request: byte by byte, fetching a new block whenever the buffer is used up;
\* ctr is the counter of the NEXT block, num the bytes used of the current one.
Take(s, i) == IF s[2] = 0 THEN << (s[1] + 1) % M, 1 % B, Append(s[3], Byte(s[1], 0)) >>
              ELSE << s[1], (s[2] + 1) % B, Append(s[3], Byte(s[1] - 1 + M, s[2])) >>
Get(n) == /\ Len(reqs) < MaxLen
          /\ LET r == FoldLeft(Take, << ctr, num, <<>> >>, [i \in 1..n |-> i])
             IN ctr' = r[1] /\ num' = r[2] /\ outp' = r[3]
          /\ pos' = pos + n /\ reqs' = Append(reqs, n) /\ nonce' = nonce
Next == \E n \in 0..MaxReq : Get(n)
Spec == Init /\ [][Next]_vars
Chunking == \A i \in 1..Len(outp) : outp[i] = Stream(nonce, pos - Len(outp) + i - 1)
Script == (PrintScripts /\ Len(reqs) = MaxLen) => PrintT("@@" \o ToJson([nonce |-> nonce, reqs |-> reqs]))
=============================================================================
