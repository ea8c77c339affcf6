--------------------------- MODULE HashFamilies ---------------------------
(***************************************************************************)
(* Hash families: what a hash function returns and how functions are        *)
(* derived from families and configurations.                               *)
(***************************************************************************)
EXTENDS Words, Sha256

OK == 0   INVALID == 3

\* Bytes (little endian, any number) modulo m, 1 <= m < 2^31.
ModBytes(bs, m) ==
   IF m <= 1073741824
   THEN FoldLeft(LAMBDA r, i : LET byte == bs[Len(bs) + 1 - i]
                               IN FoldLeft(LAMBDA q, k : (2 * q + ((byte \div P2(8 - k)) % 2)) % m,
                                           r, <<1,2,3,4,5,6,7,8>>),
                 0, UpTo(Len(bs)))
   ELSE LET w == WordOfBytes(bs, IF Len(bs) < 4 THEN 32 ELSE 8 * Len(bs))
            mm == [i \in 1..Len(w) |-> Limb(WordOf(m, 32), i)]
        IN LET r == ModW(w, mm) IN r[1] + 65536 * r[2]

\* The two families.  fp: the 128-bit Farm fingerprint (second half high), an oracle.
ShaHash(seed, in, ub) == ModBytes(Sha256(seed \o in), ub)
FarmHash(fp, ub) == ModBytes(BytesOfWord(fp, 16), ub)

\* Decimal digits of i, as ASCII bytes: the seed of the i-th derived function.
RECURSIVE Digits(_)
Digits(i) == IF i < 10 THEN << 48 + i >> ELSE Digits(i \div 10) \o << 48 + (i % 10) >>
DerivedSeeds(n) == [i \in 1..n |-> Digits(i - 1)]
DeriveCode(n) == IF n < 0 THEN INVALID ELSE OK

\* Configurations: family number (1 is SHA-256) and seed.
ConfigCode(fam, seed) == IF seed # <<>> /\ fam = 1 THEN OK ELSE INVALID
=============================================================================
