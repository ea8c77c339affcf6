----------------------------- MODULE Sha256 -----------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4).  32-bit words are pairs <<high 16, low 16>>.       *)
(* Messages and digests are tuples of bytes.                               *)
(***************************************************************************)
EXTENDS Words

K256 == << <<17034,12184>>,<<28983,17553>>,<<46528,64463>>,<<59829,56229>>,<<14678,49755>>,<<23025,4593>>,<<37439,33444>>,<<43804,24277>>,
   <<55303,43672>>,<<4739,23297>>,<<9265,34238>>,<<21772,32195>>,<<29374,23924>>,<<32990,45566>>,<<39900,1703>>,<<49563,61812>>,
   <<58523,27073>>,<<61374,18310>>,<<4033,40390>>,<<9228,41420>>,<<11753,11375>>,<<19060,33962>>,<<23728,43484>>,<<30457,35034>>,
   <<38974,20818>>,<<43057,50797>>,<<45059,10184>>,<<48985,32711>>,<<50912,3059>>,<<54695,37191>>,<<1738,25425>>,<<5161,10599>>,
   <<10167,2693>>,<<11803,8504>>,<<19756,28156>>,<<21304,3347>>,<<25866,29524>>,<<30314,2747>>,<<33218,51502>>,<<37490,11397>>,
   <<41663,59553>>,<<43034,26187>>,<<49739,35696>>,<<51052,20899>>,<<53650,59417>>,<<54937,1572>>,<<62478,13701>>,<<4202,41072>>,
   <<6564,49430>>,<<7735,27656>>,<<10056,30540>>,<<13488,48309>>,<<14620,3251>>,<<20184,43594>>,<<23452,51791>>,<<26670,28659>>,
   <<29839,33518>>,<<30885,25455>>,<<33992,30740>>,<<36039,520>>,<<37054,65530>>,<<42064,27883>>,<<48889,41975>>,<<50801,30962>> >>
H256 == << <<27145,58983>>,<<47975,44677>>,<<15470,62322>>,<<42319,62778>>,<<20750,21119>>,<<39685,26764>>,<<8067,55723>>,<<23520,52505>> >>

XorP(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
Sum2(h, l) == LET c == h + (l \div 65536) IN << c % 65536, l % 65536 >>
Add2(a, b) == Sum2(a[1] + b[1], a[2] + b[2])
Add4(a, b, c, d) == Sum2(a[1] + b[1] + c[1] + d[1], a[2] + b[2] + c[2] + d[2])
Add5(a, b, c, d, e) == Sum2(a[1] + b[1] + c[1] + d[1] + e[1], a[2] + b[2] + c[2] + d[2] + e[2])
\* Rotate / shift right by n < 16, and by 16 + n.
RotS(a, n) == LET p == P2(n) q == P2(16 - n)
              IN << (a[1] \div p) + (a[2] % p) * q, (a[2] \div p) + (a[1] % p) * q >>
RotL(a, n) == RotS(<< a[2], a[1] >>, n)
ShrP(a, n) == LET p == P2(n) q == P2(16 - n)
              IN << a[1] \div p, (a[2] \div p) + (a[1] % p) * q >>
BigS0(a) == XorP(XorP(RotS(a, 2), RotS(a, 13)), RotL(a, 6))
BigS1(a) == XorP(XorP(RotS(a, 6), RotS(a, 11)), RotL(a, 9))
SmlS0(a) == XorP(XorP(RotS(a, 7), RotL(a, 2)), ShrP(a, 3))
SmlS1(a) == XorP(XorP(RotL(a, 1), RotL(a, 3)), ShrP(a, 10))
ChP(e, f, g) == << (e[1] & f[1]) ^^ ((65535 - e[1]) & g[1]),
                   (e[2] & f[2]) ^^ ((65535 - e[2]) & g[2]) >>
MajP(a, b, c) == << ((a[1] & b[1]) ^^ (a[1] & c[1])) ^^ (b[1] & c[1]),
                    ((a[2] & b[2]) ^^ (a[2] & c[2])) ^^ (b[2] & c[2]) >>

Idx64 == UpTo(64)
Schedule(blk) ==      \* blk: 64 bytes
   FoldLeft(LAMBDA w, t : Append(w, Add4(SmlS1(w[t - 2]), w[t - 7], SmlS0(w[t - 15]), w[t - 16])),
            [i \in 1..16 |-> << 256 * blk[4*i - 3] + blk[4*i - 2], 256 * blk[4*i - 1] + blk[4*i] >>],
            [i \in 1..48 |-> i + 16])
Compress(h, blk) ==
   LET w == TLCEval(Schedule(blk))
       step(s, t) ==
         LET t1 == Add5(s[8], BigS1(s[5]), ChP(s[5], s[6], s[7]), K256[t], w[t])
             t2 == Add2(BigS0(s[1]), MajP(s[1], s[2], s[3]))
         IN << Add2(t1, t2), s[1], s[2], s[3], Add2(s[4], t1), s[5], s[6], s[7] >>
       r == FoldLeft(step, h, Idx64)
   IN TLCEval([i \in 1..8 |-> Add2(h[i], r[i])])
\* Padding; messages shorter than 2^21 bytes.
Padded(m) ==
   LET n == Len(m)
       z == (119 - (n % 64)) % 64
       bits == 8 * n
   IN m \o <<128>> \o [i \in 1..z |-> 0] \o
      << 0, 0, 0, 0, 0, bits \div 65536, (bits \div 256) % 256, bits % 256 >>
Sha256(m) ==
   LET p == TLCEval(Padded(m))
       h == FoldLeft(LAMBDA acc, b : Compress(acc, SubSeq(p, 64 * b - 63, 64 * b)),
                     H256, UpTo(Len(p) \div 64))
   IN TLCEval([i \in 1..32 |-> LET v == h[(i + 3) \div 4]
                           IN CASE i % 4 = 1 -> v[1] \div 256 [] i % 4 = 2 -> v[1] % 256
                                [] i % 4 = 3 -> v[2] \div 256 [] OTHER -> v[2] % 256])

\* "abc" and the empty message.
ShaSelfTest ==
   /\ Sha256(<<97, 98, 99>>) = << 186,120,22,191,143,1,207,234,65,65,64,222,93,174,34,35,
                                  176,3,97,163,150,23,122,156,180,16,255,97,242,0,21,173 >>
   /\ Sha256(<<>>) = << 227,176,196,66,152,252,28,20,154,251,244,200,153,111,185,36,
                        39,174,65,228,100,155,147,76,164,149,153,27,120,82,184,85 >>
=============================================================================
