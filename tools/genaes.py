import re
def sbox():
    p=q=1; s=[0]*256
    while True:
        p=p^((p<<1)&255)^(0x1b if p&0x80 else 0)
        q^=q<<1; q^=q<<2; q^=q<<4; q&=255
        if q&0x80: q^=9
        x=q^((q<<1|q>>7)&255)^((q<<2|q>>6)&255)^((q<<3|q>>5)&255)^((q<<4|q>>4)&255)
        s[p]=x^0x63
        if p==1: break
    s[0]=0x63
    return s
S=sbox()
def sg(v): return v-(1<<32) if v>>31 else v
def xt(v): return ((v<<1)^0x1b)&255 if v&128 else v<<1
def lit(f): 
    L=[sg(f(S[x])) for x in range(256)]
    return ",\n   ".join(",".join(str(v) for v in L[i:i+16]) for i in range(0,256,16))
def col(a,b,c,d): return a|b<<8|c<<16|d<<24
TT=[lit(lambda s:col(xt(s),s,s,xt(s)^s)),lit(lambda s:col(xt(s)^s,xt(s),s,s)),lit(lambda s:col(s,xt(s)^s,xt(s),s)),lit(lambda s:col(s,s,xt(s)^s,xt(s)))]
rows=",\n   ".join(",".join(str(x) for x in S[i:i+32]) for i in range(0,256,32))
out=(r'''------------------------------- MODULE AES -------------------------------
(***************************************************************************)
(* AES-128 (FIPS-197), written with the usual column tables, and the        *)
(* fixed-key hash / counter mode built on it.  Columns are 32-bit integers, *)
(* first byte least significant (TLC integers wrap to signed; only xor,     *)
(* and, logical shift are applied to them).  Blocks are 128-bit Words.      *)
(***************************************************************************)
EXTENDS Words

SBox == TLCEval(<<
   '''+rows+r''' >>)

@@TT@@
\* v * 2^s as a signed 32-bit integer for 0 <= v < 256, s in {0,8,16,24}.
Shl8(v, s) == IF s = 24 THEN (IF v < 128 THEN v * 16777216 ELSE (v - 256) * 16777216)
              ELSE v * P2(s)
XTime(v) == IF v < 128 THEN 2 * v ELSE (2 * v - 256) ^^ 27
Col(a, b, c, d) == Shl8(a, 0) | Shl8(b, 8) | Shl8(c, 16) | Shl8(d, 24)

\* Column tables indexed 1..256: literals, because TLC precomputes only literals;
\* TablesOk (assumed in SelfTest.tla) says what they are.
TablesOk == \A x \in 1..256 :
   LET s == SBox[x] d == XTime(s)
   IN /\ Te0[x] = Col(d, s, s, d ^^ s)  /\ Te1[x] = Col(d ^^ s, d, s, s)
      /\ Te2[x] = Col(s, d ^^ s, d, s)  /\ Te3[x] = Col(s, s, d ^^ s, d)

B0(w) == (w & 255) + 1
B1(w) == (shiftR(w, 8) & 255) + 1
B2(w) == (shiftR(w, 16) & 255) + 1
B3(w) == shiftR(w, 24) + 1

\* Word (8 limbs) <-> four columns.
Hi16(v) == IF v < 32768 THEN v * 65536 ELSE (v - 65536) * 65536
ColsOf(w) == << w[1] | Hi16(w[2]), w[3] | Hi16(w[4]), w[5] | Hi16(w[6]), w[7] | Hi16(w[8]) >>
WordOfCols(c) == << c[1] & 65535, shiftR(c[1], 16), c[2] & 65535, shiftR(c[2], 16),
                    c[3] & 65535, shiftR(c[3], 16), c[4] & 65535, shiftR(c[4], 16) >>

Rcon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
NextRoundKey(p, r) ==
   LET w == p[4]
       t == Col(SBox[B1(w)], SBox[B2(w)], SBox[B3(w)], SBox[B0(w)]) ^^ Rcon[r]
       n1 == p[1] ^^ t
       n2 == p[2] ^^ n1
       n3 == p[3] ^^ n2
   IN << n1, n2, n3, p[4] ^^ n3 >>
\* The eleven round keys of a 128-bit key.
KeySchedule(k) ==
   FoldLeft(LAMBDA ks, r : Append(ks, NextRoundKey(ks[r], r)), << ColsOf(k) >>,
            <<1,2,3,4,5,6,7,8,9,10>>)

Round(s, rk) ==
   << Te0[B0(s[1])] ^^ Te1[B1(s[2])] ^^ Te2[B2(s[3])] ^^ Te3[B3(s[4])] ^^ rk[1],
      Te0[B0(s[2])] ^^ Te1[B1(s[3])] ^^ Te2[B2(s[4])] ^^ Te3[B3(s[1])] ^^ rk[2],
      Te0[B0(s[3])] ^^ Te1[B1(s[4])] ^^ Te2[B2(s[1])] ^^ Te3[B3(s[2])] ^^ rk[3],
      Te0[B0(s[4])] ^^ Te1[B1(s[1])] ^^ Te2[B2(s[2])] ^^ Te3[B3(s[3])] ^^ rk[4] >>
LastRound(s, rk) ==
   << Col(SBox[B0(s[1])], SBox[B1(s[2])], SBox[B2(s[3])], SBox[B3(s[4])]) ^^ rk[1],
      Col(SBox[B0(s[2])], SBox[B1(s[3])], SBox[B2(s[4])], SBox[B3(s[1])]) ^^ rk[2],
      Col(SBox[B0(s[3])], SBox[B1(s[4])], SBox[B2(s[1])], SBox[B3(s[2])]) ^^ rk[3],
      Col(SBox[B0(s[4])], SBox[B1(s[1])], SBox[B2(s[2])], SBox[B3(s[3])]) ^^ rk[4] >>
XorCols(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
\* One block under an expanded key.
AesEnc(ks, x) ==
   LET s == FoldLeft(LAMBDA st, r : Round(st, ks[r]), XorCols(ColsOf(x), ks[1]),
                     <<2,3,4,5,6,7,8,9,10>>)
   IN TLCEval(WordOfCols(LastRound(s, ks[11])))

(***************************************************************************)
(* The fixed-key hash: H(x) = AES_k(s(x)) xor s(x), s(hi,lo) = (hi^lo, hi). *)
(***************************************************************************)
Sigma(x) == << x[5], x[6], x[7], x[8],
               x[1] ^^ x[5], x[2] ^^ x[6], x[3] ^^ x[7], x[4] ^^ x[8] >>
FixedKeyHash(ks, x) == LET s == TLCEval(Sigma(x)) IN Xor128(AesEnc(ks, s), s)

(***************************************************************************)
(* Counter mode with a big-endian 128-bit counter; blocks as byte tuples.   *)
(***************************************************************************)
IncBytes(bs) ==
   FoldLeft(LAMBDA acc, i : IF ~acc[1] THEN acc
                            ELSE IF acc[2][i] < 255 THEN << FALSE, [acc[2] EXCEPT ![i] = @ + 1] >>
                            ELSE << TRUE, [acc[2] EXCEPT ![i] = 0] >>,
            << TRUE, bs >>, [i \in 1..16 |-> 17 - i])[2]
\* The first n blocks of the key stream of key bytes k from nonce bytes iv.
CtrStream(k, iv, n) ==
   LET ks == KeySchedule(WordOfBytes(k, 128))
   IN FoldLeft(LAMBDA acc, i : << IncBytes(acc[1]),
                 acc[2] \o BytesOfWord(AesEnc(ks, WordOfBytes(acc[1], 128)), 16) >>,
               << iv, <<>> >>, UpTo(n))[2]

\* FIPS-197 appendix C.1 as a self-test.
AesSelfTest ==
   LET key == WordOfBytes(<<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, 128)
       pt  == WordOfBytes(<<0,17,34,51,68,85,102,119,136,153,170,187,204,221,238,255>>, 128)
       ct  == WordOfBytes(<<105,196,224,216,106,123,4,48,216,205,183,128,112,180,197,90>>, 128)
   IN AesEnc(KeySchedule(key), pt) = ct
=============================================================================''')
out=re.sub(r'(Te0\[B0\(s\[\d\]\)\]) \^\^ (Te1\[B1\(s\[\d\]\)\]) \^\^ (Te2\[B2\(s\[\d\]\)\]) \^\^ (Te3\[B3\(s\[\d\]\)\]) \^\^ (rk\[\d\])',r'(((\1 ^^ \2) ^^ \3) ^^ \4) ^^ \5',out)
out=out.replace("Shl8(a, 0) | Shl8(b, 8) | Shl8(c, 16) | Shl8(d, 24)","(Shl8(a, 0) | Shl8(b, 8)) | (Shl8(c, 16) | Shl8(d, 24))")
out=out.replace("@@TT@@","\n".join("Te%d == <<\n   %s >>"%(i,TT[i]) for i in range(4)))
out=out.replace("SBox == TLCEval(<<","SBox == <<").replace(" >>)\n\nTe0"," >>\n\nTe0")
print(out)
