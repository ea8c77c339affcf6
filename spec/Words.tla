------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width unsigned integers of 1..128 bits for TLC, whose own integers *)
(* are 32-bit.  A word is a tuple of 16-bit limbs, least significant first; *)
(* a word of b bits has Limbs(b) limbs and its top limb is < 2^(b mod 16).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise, SequencesExt

\* Loops are left folds over index sequences: TLC evaluates FoldLeft eagerly, while
\* the arguments of recursive operators pile up unevaluated.
UpTo(n) == [i \in 1..n |-> i]

Limbs(b) == (b + 15) \div 16
TopBits(b) == IF b % 16 = 0 THEN 16 ELSE b % 16
Pow2 == TLCEval(<<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,
          131072,262144,524288,1048576,2097152,4194304,8388608,16777216,33554432,67108864,
          134217728,268435456,536870912,1073741824>>)
P2(n) == Pow2[n + 1]                        \* n in 0..30

ZeroW(b) == TLCEval([i \in 1..Limbs(b) |-> 0])
OneW(b)  == TLCEval([i \in 1..Limbs(b) |-> IF i = 1 THEN 1 ELSE 0])
Zero128 == <<0,0,0,0,0,0,0,0>>
Max128 == <<65535,65535,65535,65535,65535,65535,65535,65535>>

IsWord(w, b) == /\ Len(w) = Limbs(b)
                /\ \A i \in 1..Len(w) : w[i] >= 0 /\ w[i] < 65536
                /\ w[Len(w)] < P2(TopBits(b))

\* A natural < 2^31 as a word of b bits (must fit).
WordOf(n, b) == TLCEval([i \in 1..Limbs(b) |-> IF i = 1 THEN n % 65536
                                       ELSE IF i = 2 THEN n \div 65536 ELSE 0])
\* The other direction; only for words < 2^30.
NatOf(w) == IF Len(w) = 1 THEN w[1] ELSE w[1] + 65536 * w[2]
IsSmall(w) == /\ \A i \in 3..Len(w) : w[i] = 0
              /\ (Len(w) < 2 \/ w[2] < 16384)

\* Zero-extend / check-and-truncate to b bits.
Limb(w, i) == IF i <= Len(w) THEN w[i] ELSE 0
Ext(w, b) == TLCEval([i \in 1..Limbs(b) |-> Limb(w, i)])
Trunc(w, b) == TLCEval([i \in 1..Limbs(b) |->
                  IF i = Limbs(b) THEN Limb(w, i) % P2(TopBits(b)) ELSE Limb(w, i)])
Fits(w, b) == \A i \in 1..Len(w) :
                 \/ i < Limbs(b)
                 \/ i = Limbs(b) /\ w[i] < P2(TopBits(b))
                 \/ i > Limbs(b) /\ w[i] = 0

XorW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
Xor128(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4],
                   a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8] >>

\* Addition modulo 2^bits (same lengths), by carries.
AddC(a, b) == FoldLeft(LAMBDA acc, i : LET t == a[i] + b[i] + acc[1]
                                       IN << t \div 65536, Append(acc[2], t % 65536) >>,
                       << 0, <<>> >>, UpTo(Len(a)))
AddW(a, b, bits) == Trunc(AddC(a, b)[2], bits)
CarryW(a, b) == AddC(a, b)[1]     \* carry out of the limb-wise addition
NotW(a, bits) == Trunc([i \in 1..Len(a) |-> 65535 - a[i]], bits)
NegW(a, bits) == AddW(NotW(a, bits), OneW(bits), bits)
SubW(a, b, bits) == AddW(a, NegW(b, bits), bits)

RECURSIVE CmpFrom(_,_,_)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i - 1)
LtW(a, b) == CmpFrom(a, b, Len(a)) < 0
LeW(a, b) == CmpFrom(a, b, Len(a)) <= 0
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0

\* Bit i (0 = least significant).
BitW(a, i) == IF i \div 16 >= Len(a) THEN 0 ELSE (a[(i \div 16) + 1] \div P2(i % 16)) % 2
\* Shifts by n bits on 128-bit words (n in 0..128 and beyond give 0).
ShrW(a, n) ==
   LET q == n \div 16  r == n % 16
   IN TLCEval([i \in 1..Len(a) |-> (Limb(a, i + q) \div P2(r))
                            + (Limb(a, i + q + 1) % P2(r)) * P2(16 - r)])
ShlW(a, n) ==
   LET q == n \div 16  r == n % 16
       L(i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
   IN TLCEval([i \in 1..Len(a) |-> ((L(i - q) % P2(16 - r)) * P2(r))
                            + (L(i - q - 1) \div P2(16 - r))])
\* 2^n as a 128-bit word, n in 0..127.
Pow2W(n) == TLCEval([i \in 1..8 |-> IF i = (n \div 16) + 1 THEN P2(n % 16) ELSE 0])

\* Quotient and remainder of a by m (m # 0, same length), bit by bit.
DivModW(a, m) ==
   LET nb == 16 * Len(a)
       mm == Append(m, 0)
       bits == 16 * Len(mm)
       step(acc, i) ==
         LET d == ShlW(acc[2], 1)
             r2 == [d EXCEPT ![1] = @ + BitW(a, i)]
         IN IF LeW(mm, r2)
            THEN << [acc[1] EXCEPT ![(i \div 16) + 1] = @ + P2(i % 16)], SubW(r2, mm, bits) >>
            ELSE << acc[1], r2 >>
       qr == FoldLeft(step, << [i \in 1..Len(a) |-> 0], [i \in 1..Len(mm) |-> 0] >>,
                      [i \in 1..nb |-> nb - i])
   IN << qr[1], SubSeq(qr[2], 1, Len(a)) >>
ModW(a, m) == DivModW(a, m)[2]
DivW(a, m) == DivModW(a, m)[1]

\* Bytes (little endian) to a word of b bits and back.
WordOfBytes(bs, b) ==
   LET B(i) == IF i <= Len(bs) THEN bs[i] ELSE 0
   IN TLCEval([i \in 1..Limbs(b) |-> B(2*i - 1) + 256 * B(2*i)])
BytesOfWord(w, n) ==
   TLCEval([i \in 1..n |-> IF i % 2 = 1 THEN Limb(w, (i + 1) \div 2) % 256
                                ELSE Limb(w, i \div 2) \div 256])
=============================================================================
