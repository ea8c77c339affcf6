--------------------------------- MODULE Pir ---------------------------------
(***************************************************************************)
(* Databases as sequences of byte strings, selections as sequences of       *)
(* 128-bit words, and the inner product of the two.                         *)
(***************************************************************************)
EXTENDS Streams

Zeros(n) == [i \in 1..n |-> 0]
PadTo(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
XorInto(acc, v) == TLCEval([i \in 1..Len(acc) |-> IF i <= Len(v) THEN acc[i] ^^ v[i] ELSE acc[i]])
MaxLen(vals) == FoldLeft(LAMBDA m, v : IF Len(v) > m THEN Len(v) ELSE m, 0, vals)

\* Is record i (from 1) selected?
Selected(sel, i) == BitW(sel[((i - 1) \div 128) + 1], (i - 1) % 128) = 1
\* The records that matter, padded to n bytes and added up.
Inner(vals, sel, n) ==
   FoldLeft(LAMBDA acc, i : IF Len(vals[i]) > 0 /\ Selected(sel, i) THEN XorInto(acc, vals[i]) ELSE acc,
            Zeros(n), UpTo(Len(vals)))
\* An answer must have room for the longest record.
InnerCode(vals, sels, n) ==
   IF sels = <<>> THEN OK
   ELSE IF \E i \in 1..Len(sels) : 128 * Len(sels[i]) < Len(vals) \/ Len(sels[i]) # Len(sels[1]) THEN INVALID
   ELSE IF n <= 0 \/ n < MaxLen(vals) THEN INVALID
   ELSE OK
\* Refused only for want of any byte to answer with: says so in its payload.
OnlyEmpty(vals, sels, n) == n <= 0 /\ InnerCode(vals, sels, n) = INVALID /\ InnerCode(vals, sels, MaxLen(vals) + 1) = OK
MAX_VALUE_SIZE_IS_ZERO == 1
Inners(vals, sels, n) == [k \in 1..Len(sels) |-> Inner(vals, sels[k], n)]
=============================================================================
