------------------------------- MODULE Groups -------------------------------
(***************************************************************************)
(* Value types of a DPF: unsigned integers, integers modulo N, XOR groups   *)
(* and (nested) tuples of these.  A value of a type is the sequence of its  *)
(* leaves' words; a leaf is [k, b(, n)] with k the kind, b the width in     *)
(* bits and n the modulus.                                                  *)
(***************************************************************************)
EXTENDS Words

RECURSIVE Leaves(_)
Leaves(t) == CASE t.k = "int" -> << [k |-> "int", b |-> t.b, n |-> <<>>] >>
               [] t.k = "xor" -> << [k |-> "xor", b |-> t.b, n |-> <<>>] >>
               [] t.k = "mod" -> << [k |-> "mod", b |-> t.b, n |-> Trunc(t.n.v, t.b)] >>
               [] OTHER       -> FlattenSeq([i \in 1..Len(t.t) |-> Leaves(t.t[i])])

--------------------------------------------------------------------------------
(* The group of one leaf. *)
LeafValid(l, a) == IsWord(a, l.b) /\ (l.k = "mod" => LtW(a, l.n))
LeafZero(l) == ZeroW(l.b)
LeafNeg(l, a) == CASE l.k = "int" -> NegW(a, l.b)
                   [] l.k = "xor" -> a
                   [] OTHER -> IF IsZero(a) THEN a ELSE SubW(l.n, a, l.b)
ModAdd(a, b, n) ==
   LET c == AddC(a, b)
       s == Append(c[2], c[1])
       m == Append(n, 0)
   IN IF LeW(m, s) THEN SubSeq(SubW(s, m, 16 * Len(m)), 1, Len(a)) ELSE c[2]
LeafAdd(l, a, b) == CASE l.k = "int" -> AddW(a, b, l.b)
                      [] l.k = "xor" -> XorW(a, b)
                      [] OTHER -> ModAdd(a, b, l.n)

(* Componentwise on the leaves. *)
ValidV(L, a) == Len(a) = Len(L) /\ \A i \in 1..Len(L) : LeafValid(L[i], a[i])
ZeroV(L) == TLCEval([i \in 1..Len(L) |-> LeafZero(L[i])])
NegV(L, a) == TLCEval([i \in 1..Len(L) |-> LeafNeg(L[i], a[i])])
AddV(L, a, b) == TLCEval([i \in 1..Len(L) |-> LeafAdd(L[i], a[i], b[i])])
SubV(L, a, b) == AddV(L, a, NegV(L, b))

--------------------------------------------------------------------------------
(* How values are drawn from bytes, and packed into 128-bit blocks. *)
Direct(L) == \A i \in 1..Len(L) : L[i].k # "mod"
TotalBits(L) == FoldLeft(LAMBDA s, l : s + l.b, 0, L)
TotalBytes(L) == (TotalBits(L) + 7) \div 8
\* Elements that one block holds.
PerBlock(L) == IF Direct(L) /\ TotalBits(L) <= 128 THEN 128 \div TotalBits(L) ELSE 1
CeilLog2(n) == CHOOSE k \in 0..30 : P2(k) >= n /\ (k = 0 \/ P2(k - 1) < n)
\* Tree levels an element needs below a 128-bit block.
LogBits(L) == IF ~Direct(L) \/ TotalBits(L) > 128 THEN 7 ELSE CeilLog2(TotalBits(L))

Bytes(bs, from, n) == SubSeq(bs, from + 1, from + n)   \* n bytes after the first `from`
\* Plain layout: leaf after leaf, little endian, element e (from 0).
DirectOf(L, bs, e) ==
   FoldLeft(LAMBDA acc, l : LET n == (l.b + 7) \div 8 IN
                << acc[1] + n, Append(acc[2], WordOfBytes(Bytes(bs, acc[1], n), l.b)) >>,
            << e * TotalBytes(L), <<>> >>, L)[2]

\* Iterated sampling: a 128-bit block from which each leaf takes its share and into which
\* fresh bytes are shifted for the next one.
LowReplaced(blk, b, bytes) ==        \* the low b bits of blk replaced by the given bytes
   LET q == b \div 8
       full == BytesOfWord(blk, 16)
   IN WordOfBytes([i \in 1..16 |-> IF i <= q THEN bytes[i] ELSE full[i]], 128)
QuotShifted(q, b, bytes) ==          \* (q shifted left by b) or the given bytes
   LET s == IF b >= 128 THEN Zero128 ELSE ShlW(q, b)
   IN XorW(s, WordOfBytes(bytes, 128))
SampledOf(L, bs) ==
   LET n == Len(L)
       step(acc, i) ==
         LET l == L[i]  blk == acc.blk  q == l.b \div 8
             dm == IF l.k = "mod" THEN DivModW(blk, Ext(l.n, 128)) ELSE <<>>
             v == IF l.k = "mod" THEN Trunc(dm[2], l.b) ELSE Trunc(blk, l.b)
             nx == Bytes(bs, acc.at, q)
         IN IF i = n THEN [acc EXCEPT !.out = Append(@, v)]
            ELSE [out |-> Append(acc.out, v), at |-> acc.at + q,
                  blk |-> IF l.k = "mod" THEN QuotShifted(dm[1], l.b, nx) ELSE LowReplaced(blk, l.b, nx)]
   IN FoldLeft(step, [out |-> <<>>, at |-> 16, blk |-> WordOfBytes(Bytes(bs, 0, 16), 128)], UpTo(n)).out
\* Bytes consumed by one element.
SampleBytes(L) == IF Direct(L) THEN TotalBytes(L)
                  ELSE 16 + FoldLeft(LAMBDA s, i : s + L[i].b \div 8, 0, UpTo(Len(L) - 1))
\* Element e (from 0) of the values drawn from bytes.
ElementOf(L, bs, e) == IF Direct(L) THEN DirectOf(L, bs, e) ELSE SampledOf(L, bs)

--------------------------------------------------------------------------------
(* Messages.  An integer message is [c, v]: c = 64 or 128 the field used (0: none). *)
IntSet(i) == i.c # 0
IntFits(i, b) == IntSet(i) /\ Fits(i.v, b)
RECURSIVE ValueOk(_,_)
ValueOk(v, t) ==
   /\ v.k = t.k
   /\ CASE t.k \in {"int", "xor"} -> IntFits(v.i, t.b)
        [] t.k = "mod" -> IntFits(v.i, t.b) /\ LtW(v.i.v, t.n.v)
        [] t.k = "tup" -> /\ Len(v.t) = Len(t.t)
                          /\ \A i \in 1..Len(t.t) : ValueOk(v.t[i], t.t[i])
        [] OTHER -> FALSE
RECURSIVE ValueLeaves(_,_)
ValueLeaves(v, t) == IF t.k = "tup" THEN FlattenSeq([i \in 1..Len(t.t) |-> ValueLeaves(v.t[i], t.t[i])])
                     ELSE << Trunc(v.i.v, t.b) >>
\* Shape of a value message: kinds only.
RECURSIVE SameShape(_,_)
SameShape(v, t) == /\ v.k = t.k
                   /\ t.k = "tup" => /\ Len(v.t) = Len(t.t)
                                     /\ \A i \in 1..Len(t.t) : SameShape(v.t[i], t.t[i])
\* The canonical message of a value: 64-bit field unless the value needs the other one.
BitsOk(b) == b \in {1, 2, 4, 8, 16, 32, 64, 128}
RECURSIVE TypeOk(_)
TypeOk(t) == CASE t.k \in {"int", "xor"} -> BitsOk(t.b)
               [] t.k = "mod" -> BitsOk(t.b) /\ IntSet(t.n) /\ ~IsZero(t.n.v) /\ Fits(t.n.v, t.b)
               [] t.k = "tup" -> Len(t.t) > 0 /\ \A i \in 1..Len(t.t) : TypeOk(t.t[i])
               [] OTHER -> FALSE
RECURSIVE TypeEq(_,_)
TypeEq(s, t) == /\ s.k = t.k
                /\ CASE t.k \in {"int", "xor"} -> s.b = t.b
                     [] t.k = "mod" -> s.b = t.b /\ s.n.v = t.n.v
                     [] t.k = "tup" -> Len(s.t) = Len(t.t) /\ \A i \in 1..Len(t.t) : TypeEq(s.t[i], t.t[i])
                     [] OTHER -> TRUE

\* log2 of the modulus lies in [Lo, Hi], in whole bits.
BitLen(w) == IF IsZero(w) THEN 0 ELSE LET j == CHOOSE j \in 1..Len(w) : w[j] # 0 /\ \A k \in (j+1)..Len(w) : w[k] = 0
             IN 16 * (j - 1) + (CHOOSE k \in 1..16 : w[j] >= P2(k - 1) /\ w[j] < P2(k))
=============================================================================
