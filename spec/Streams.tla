------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* Seeded streams (AES-128 in counter mode) and the basic generator.        *)
(***************************************************************************)
EXTENDS AES, FiniteSets

OK == 0   INVALID == 3   INTERNAL == 13   FAILED_PRECONDITION == 9   UNIMPLEMENTED == 12

CreateCode(seed, nonce) == IF Len(seed) = 16 /\ Len(nonce) = 16 THEN OK ELSE INVALID
Zero16 == [i \in 1..16 |-> 0]

\* The 16-byte big-endian counter after n increments (n < 2^31).
AddToCounter(ctr, n) ==
   FoldLeft(LAMBDA acc, i : LET t == ctr[i] + (acc[1] % 256)
                            IN << (acc[1] \div 256) + (t \div 256), [acc[2] EXCEPT ![i] = t % 256] >>,
            << n, ctr >>, [i \in 1..16 |-> 17 - i])[2]

\* Bytes pos .. pos+n-1 of the stream of (seed, nonce).
StreamBytes(seed, nonce, pos, n) ==
   IF n = 0 THEN <<>>
   ELSE LET first == pos \div 16
            last == (pos + n - 1) \div 16
            s == CtrStream(seed, AddToCounter(nonce, first), last - first + 1)
        IN SubSeq(s, (pos % 16) + 1, (pos % 16) + n)

(***************************************************************************)
(* What fresh randomness must look like.  Words of w bits, at least w + 64  *)
(* of them: the vectors (draw, 1) span everything, i.e. no linear or affine *)
(* relation between bit positions holds in all draws (probability of a     *)
(* false alarm < 2^-60).                                                   *)
(***************************************************************************)
LowBit(w) ==   \* index of the lowest set bit of a non-zero word
   LET j == CHOOSE i \in 1..Len(w) : w[i] # 0 /\ \A k \in 1..(i - 1) : w[k] = 0
   IN 16 * (j - 1) + (CHOOSE b \in 0..15 : (w[j] \div P2(b)) % 2 = 1 /\ w[j] % P2(b) = 0)
\* Gaussian elimination: rows is a sequence of words; returns the rank.
Rank(rows) ==
   LET n == 16 * Len(rows[1])
       step(basis, r) ==    \* basis: sequence of n words, zero where no pivot
         LET red == FoldLeft(LAMBDA x, b : IF ~IsZero(basis[b]) /\ BitW(x, b - 1) = 1
                                           THEN XorW(x, basis[b]) ELSE x,
                             r, UpTo(n))
         IN IF IsZero(red) THEN basis ELSE [basis EXCEPT ![LowBit(red) + 1] = red]
       zero == [i \in 1..Len(rows[1]) |-> 0]
       basis == FoldLeft(step, [i \in 1..n |-> zero], rows)
   IN Cardinality({ i \in 1..n : ~IsZero(basis[i]) })
FullRank(draws, w) == Rank([i \in 1..Len(draws) |-> Append(draws[i], 1)]) = w + 1
AllDistinct(s) == Cardinality({ s[i] : i \in 1..Len(s) }) = Len(s)
=============================================================================
