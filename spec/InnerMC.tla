-------------------------------- MODULE InnerMC --------------------------------
(***************************************************************************)
(* The vectorised inner product, step by step: whole vectors of N lanes,    *)
(* then halves of ever fewer lanes for the rest, for all selections at once *)
(* that chose the record; unaligned records byte by byte.  Bytes are bits,  *)
(* so that every content is tried; memory behind a record may hold          *)
(* anything and must not matter.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MaxSize, NumValues, NumSels
VARIABLES vals,    \* sequence of [b |-> bytes, al |-> aligned]
          sels,    \* sequence of selections: sets of indices
          res,     \* results so far
          idx, pos, lanes
vars == << vals, sels, res, idx, pos, lanes >>
MaxI(a, b) == IF a > b THEN a ELSE b
Width == LET S == {Len(vals[i].b) : i \in 1..Len(vals)} IN CHOOSE m \in S : \A x \in S : x <= m
\* Contents: 1 at one byte, or everywhere, or a pattern; enough for a linear map over bits.
Contents(n) == {[i \in 1..n |-> IF i = k THEN 1 ELSE 0] : k \in 0..n} \cup {[i \in 1..n |-> 1]}
Values == UNION {{[b |-> c, al |-> a] : c \in Contents(n), a \in BOOLEAN} : n \in 0..MaxSize}
Init == /\ vals \in [1..NumValues -> Values]
        /\ sels \in [1..NumSels -> SUBSET (1..(NumValues + 1))]     \* one bit beyond the end
        /\ idx = 1 /\ pos = 0 /\ lanes = N
        /\ res = [k \in 1..NumSels |-> [i \in 1..Width |-> 0]]
Chosen == {k \in 1..NumSels : idx \in sels[k]}
Apply(from, n) == res' = [k \in 1..NumSels |-> IF k \in Chosen
                     THEN [i \in 1..Width |-> IF i > from /\ i <= from + n THEN (res[k][i] + vals[idx].b[i]) % 2 ELSE res[k][i]]
                     ELSE res[k]]
Size == Len(vals[idx].b)
Done == idx > Len(vals)
Advance == idx' = idx + 1 /\ pos' = 0 /\ lanes' = N
Skip == ~Done /\ pos = 0 /\ lanes = N /\ Chosen = {} /\ Advance /\ UNCHANGED << vals, sels, res >>
Slow == ~Done /\ Chosen # {} /\ ~vals[idx].al /\ Apply(0, Size) /\ Advance /\ UNCHANGED << vals, sels >>
Whole == /\ ~Done /\ Chosen # {} /\ vals[idx].al /\ lanes = N /\ pos + N <= Size
         /\ Apply(pos, N) /\ pos' = pos + N /\ UNCHANGED << vals, sels, idx, lanes >>
Half == /\ ~Done /\ Chosen # {} /\ vals[idx].al
        /\ (lanes < N \/ pos + N > Size)
        /\ IF lanes = 1 THEN Advance /\ UNCHANGED << vals, sels, res >>
           ELSE LET h == lanes \div 2
                    rem == Size % N
                IN /\ IF (rem \div h) % 2 = 1 THEN Apply(pos, h) /\ pos' = pos + h
                      ELSE res' = res /\ pos' = pos
                   /\ lanes' = h /\ UNCHANGED << vals, sels, idx >>
Next == Skip \/ Slow \/ Whole \/ Half
Spec == Init /\ [][Next]_vars
Want(k, i) == Cardinality({j \in 1..Len(vals) : j \in sels[k] /\ i <= Len(vals[j].b) /\ vals[j].b[i] = 1}) % 2
Right == Done => \A k \in 1..NumSels : \A i \in 1..Width : res[k][i] = Want(k, i)
InBounds == ~Done => pos <= Size
=============================================================================
