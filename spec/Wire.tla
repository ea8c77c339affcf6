-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The bytes that a key becomes when it is sent: the protocol buffer        *)
(* encoding of the documented messages, fields in order, zeroes left out.   *)
(* Keys as recorded: [seed, party, s, cw |-> <<[seed, s, c, vc]>>, last].   *)
(***************************************************************************)
EXTENDS Words
RECURSIVE VarW(_)
VarW(w) == IF \A i \in 1..Len(w) : w[i] = 0 THEN << 0 >>       \* w: 16-bit limbs, lowest first
           ELSE LET rest == ShrW(w, 7)
                    low == w[1] % 128
                IN IF IsZero(rest) THEN << low >> ELSE << 128 + low >> \o VarW(rest)
RECURSIVE VarN(_)
VarN(n) == IF n < 128 THEN << n >> ELSE << 128 + (n % 128) >> \o VarN(n \div 128)
Scalar(f, w) == IF IsZero(w) THEN <<>> ELSE << 8 * f >> \o VarW(w)
Bool(f, b) == IF b = 0 THEN <<>> ELSE << 8 * f, 1 >>
Message(f, bytes) == << 8 * f + 2 >> \o VarN(Len(bytes)) \o bytes
Block16(w) == Scalar(1, SubSeq(w, 5, 8)) \o Scalar(2, SubSeq(w, 1, 4))
WireInt(i) == CASE i.c = 64  -> << 8 >> \o VarW(i.v)           \* present even if zero
                [] i.c = 128 -> Message(2, Block16(i.v))
                [] OTHER     -> <<>>
RECURSIVE WireValue(_)
WireValue(v) == CASE v.k = "int" -> Message(1, WireInt(v.i))
                  [] v.k = "tup" -> Message(2, FlattenSeq([j \in 1..Len(v.t) |-> Message(1, WireValue(v.t[j]))]))
                  [] v.k = "mod" -> Message(3, WireInt(v.i))
                  [] v.k = "xor" -> Message(4, WireInt(v.i))
                  [] OTHER       -> <<>>
WireValues(f, vs) == FlattenSeq([j \in 1..Len(vs) |-> Message(f, WireValue(vs[j]))])
WireCw(c) == (IF c.seed = 1 THEN Message(1, Block16(c.s)) ELSE <<>>) \o Bool(2, c.c[1]) \o Bool(3, c.c[2]) \o WireValues(5, c.vc)
WireKey(k) == (IF k.seed = 1 THEN Message(1, Block16(k.s)) ELSE <<>>)
              \o FlattenSeq([j \in 1..Len(k.cw) |-> Message(2, WireCw(k.cw[j]))])
              \o Bool(3, k.party) \o WireValues(5, k.last)
WireDcfKey(k) == Message(1, WireKey(k))
WireMicKey(k) == Message(1, WireDcfKey(k.key)) \o FlattenSeq([j \in 1..Len(k.z) |-> Message(2, WireInt(k.z[j]))])

\* A saved evaluation, without its parameters: key, levels (from 0; -1: none yet), partial evaluations
\* [p |-> prefix, s |-> seed, c |-> control bit].
Signed(f, n) == IF n >= 0 THEN Scalar(f, WordOf(n, 64)) ELSE << 8 * f >> \o VarW(SubW(WordOf(0, 64), WordOf(-n, 64), 64))
WirePart(x) == Message(1, Block16(x.p)) \o Message(2, Block16(x.s)) \o Bool(3, x.c)
WireContext(k, prev, parts, pl) ==
   Message(2, WireKey(k)) \o Signed(3, prev) \o FlattenSeq([i \in 1..Len(parts) |-> Message(4, WirePart(parts[i]))]) \o Signed(5, pl)

(***************************************************************************)
(* The messages of the retrieval layer.                                     *)
(***************************************************************************)
BytesAt(f, b) == IF b = <<>> THEN <<>> ELSE Message(f, b)
Fixed32(f, w) == IF IsZero(w) THEN <<>> ELSE << 8 * f + 5, w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256 >>
Repeated(f, bs) == FlattenSeq([i \in 1..Len(bs) |-> Message(f, bs[i])])
WirePlain(keys, fp) == Repeated(1, [i \in 1..Len(keys) |-> WireKey(keys[i])]) \o Fixed32(2, fp)
WireHelper(keys, fp, otp) == Message(1, WirePlain(keys, fp)) \o BytesAt(2, otp)
\* PirRequest: to the leader, from the leader to the helper
WireToLeader(keys, fp, cipher) == Message(1, Message(2, Message(1, WirePlain(keys, fp)) \o Message(2, BytesAt(1, cipher))))
WireToHelper(cipher) == Message(1, Message(3, BytesAt(1, cipher)))
WireResponse(items) == Message(1, Repeated(1, items))
WireState(k, otp, qs) == Message(k, BytesAt(1, otp) \o Repeated(2, qs))
WireHashing(p) == Scalar(1, WordOf(p.fam, 64)) \o BytesAt(2, p.seed)
WirePublic(k, p) == CASE k = 1 -> Message(1, Message(1, WireHashing(p)) \o Signed(2, p.h) \o Scalar(3, p.nb))
                      [] k = 2 -> Message(2, Message(1, WireHashing(p)) \o Scalar(2, p.nb))
                      [] OTHER -> <<>>
=============================================================================
