------------------------------- MODULE PirDb -------------------------------
(***************************************************************************)
(* The three kinds of database: what a builder that holds certain records   *)
(* must build from them.  Records are values (dense) or pairs <<key, value>>.*)
(* A database is a sequence of columns (dense: the values; cuckoo: keys and *)
(* values of the buckets; simple: the serialised buckets), all of one length.*)
(***************************************************************************)
EXTENDS Pir
HF == INSTANCE HashFamilies

\* 64-bit numbers as four limbs.
NegI(w) == w[4] >= 32768
PosI(w) == ~NegI(w) /\ ~IsZero(w)
IntI(w) == w[4] = 0 /\ w[3] = 0 /\ w[2] < 32768          \* 0 .. 2^31 - 1
ValI(w) == w[1] + 65536 * w[2]

\* Hashing parameters [nb, h, fam, seed]: the buckets a key may be found in.
HashOk(p) == p.fam = 1 /\ p.seed # <<>>
NoParams == [nb |-> << 0, 0, 0, 0 >>, h |-> 0, fam |-> 0, seed |-> <<>>]
Positions(p, h, key) == TLCEval([i \in 1..h |-> 1 + HF!ShaHash(p.seed \o HF!Digits(i - 1), key, ValI(p.nb))])

\* Later records under a key that is already there are ignored (cuckoo).
FirstOnes(recs) == FoldLeft(LAMBDA acc, r : IF \E i \in 1..Len(acc) : acc[i][1] = r[1] THEN acc ELSE Append(acc, r), <<>>, recs)

\* Can every element have a bucket of its own?  P: their possible buckets.
RECURSIVE Try(_,_,_,_)
Try(P, k, seen, m) ==
   LET step(acc, b) ==
          IF acc.ok \/ b \in acc.seen THEN acc
          ELSE IF acc.m[b] = 0 THEN [ok |-> TRUE, seen |-> acc.seen, m |-> [acc.m EXCEPT ![b] = k]]
          ELSE LET r == TLCEval(Try(P, acc.m[b], acc.seen \cup {b}, acc.m))
               IN IF r.ok THEN [ok |-> TRUE, seen |-> r.seen, m |-> [r.m EXCEPT ![b] = k]]
                  ELSE [ok |-> FALSE, seen |-> r.seen, m |-> acc.m]
   IN FoldLeft(step, [ok |-> FALSE, seen |-> seen, m |-> m], P[k])
Placeable(P, nb) ==
   FoldLeft(LAMBDA acc, k : IF ~acc.ok THEN acc ELSE LET r == TLCEval(Try(P, k, {}, acc.m)) IN [ok |-> r.ok, m |-> r.m],
            [ok |-> TRUE, m |-> [b \in 1..nb |-> 0]], UpTo(Len(P))).ok

\* Answers to Build, and the records placed.
ParamsCodes(p) ==
   IF ~PosI(p.nb) \/ ~IntI(p.nb) \/ ~HashOk(p) THEN {INVALID} ELSE {OK}
SimpleCodes(p, recs) ==
   IF ParamsCodes(p) # {OK} THEN ParamsCodes(p)
   ELSE IF \E i \in 1..Len(recs) : recs[i][1] = <<>> THEN {INVALID} ELSE {OK}
\* P: positions of the distinct records.
CuckooCodes(p, recs, P) ==
   IF ParamsCodes(p) # {OK} THEN ParamsCodes(p)
   ELSE IF p.h < 2 THEN {INVALID}
   ELSE IF \E i \in 1..Len(recs) : recs[i][1] = <<>> THEN {INVALID, INTERNAL}
   ELSE LET n == Len(recs)
            light == 3 * n <= 2 * ValI(p.nb)
            roomy == light /\ p.h >= 3
        IN IF n > 60 THEN (IF roomy THEN {OK} ELSE {OK, INTERNAL})
           ELSE IF ~Placeable(P, ValI(p.nb)) THEN {INTERNAL}
           ELSE IF roomy \/ (light /\ n <= 8) THEN {OK} ELSE {OK, INTERNAL}

(***************************************************************************)
(* Serialised buckets: keys (tag 10), then values (tag 18), lengths as base *)
(* 128 numbers; anything after a zero tag is padding.                       *)
(***************************************************************************)
RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN << n >> ELSE << 128 + (n % 128) >> \o Varint(n \div 128)
Field(tag, b) == << tag >> \o Varint(Len(b)) \o b
Serialised(kvs) == FlattenSeq([i \in 1..Len(kvs) |-> Field(10, kvs[i][1])]) \o FlattenSeq([i \in 1..Len(kvs) |-> Field(18, kvs[i][2])])
AllZeroFrom(b, i) == \A j \in i..Len(b) : b[j] = 0
\* [ok, keys, vals]; not ok where the bytes are not of this form.
RECURSIVE ParseFrom(_,_,_,_)
ParseFrom(b, i, ks, vs) ==
   LET bad == [ok |-> FALSE, keys |-> ks, vals |-> vs] IN
   IF i > Len(b) \/ b[i] = 0 THEN [ok |-> AllZeroFrom(b, i), keys |-> ks, vals |-> vs]
   ELSE IF b[i] \notin {10, 18} \/ i = Len(b) THEN bad
   ELSE LET \* the length, of up to four bytes
            ends == { k \in 1..4 : i + k <= Len(b) /\ b[i + k] < 128 /\ \A j \in 1..(k - 1) : b[i + j] >= 128 }
            k == CHOOSE x \in ends : TRUE
            n == FoldLeft(LAMBDA acc, j : 128 * acc + (b[i + k + 1 - j] % 128), 0, UpTo(k))
            at == i + k + 1
        IN IF ends = {} THEN bad ELSE IF at + n - 1 > Len(b) THEN bad
           ELSE LET f == SubSeq(b, at, at + n - 1)
                IN IF b[i] = 10 THEN ParseFrom(b, at + n, Append(ks, f), vs) ELSE ParseFrom(b, at + n, ks, Append(vs, f))
Parse(b) == TLCEval(ParseFrom(b, 1, <<>>, <<>>))
FirstAt(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x

(***************************************************************************)
(* Do the columns hold exactly the records?                                 *)
(***************************************************************************)
Width(col) == MaxLen(col)
DenseHolds(col, recs) == LET n == MaxLen(recs) IN col = [i \in 1..Len(recs) |-> PadTo(recs[i], n)]
\* Each record in one of its buckets, the other buckets empty.
CuckooHolds(keys, vals, nb, recs, P) ==
   LET kw == TLCEval(MaxLen([i \in 1..Len(recs) |-> recs[i][1]]))
       vw == TLCEval(MaxLen([i \in 1..Len(recs) |-> recs[i][2]]))
       at == TLCEval([i \in 1..Len(recs) |->
                LET k == PadTo(recs[i][1], kw)
                    v == PadTo(recs[i][2], vw)
                IN { b \in { P[i][j] : j \in 1..Len(P[i]) } : keys[b] = k /\ vals[b] = v }])
       used == { b \in 1..nb : keys[b] # Zeros(kw) \/ vals[b] # Zeros(vw) }
   IN /\ Len(keys) = nb /\ Len(vals) = nb
      /\ \A b \in 1..nb : Len(keys[b]) = kw /\ Len(vals[b]) = vw
      /\ Cardinality(used) <= Len(recs)
      /\ \A i \in 1..Len(recs) : at[i] # {}
      /\ used \subseteq UNION { at[i] : i \in 1..Len(recs) }
SameElements(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
   Cardinality({ j \in 1..Len(a) : a[j] = a[i] }) = Cardinality({ j \in 1..Len(b) : b[j] = a[i] })
SimpleHolds(col, nb, recs, P) ==
   LET mine(b) == SelectSeq([i \in 1..Len(recs) |-> << recs[i], P[i][1] >>], LAMBDA r : r[2] = b)
       kvs == TLCEval([b \in 1..nb |-> LET m == mine(b) IN [i \in 1..Len(m) |-> m[i][1]]])
       got == TLCEval([b \in 1..nb |-> Parse(col[b])])
       width == TLCEval(MaxLen([b \in 1..nb |-> Serialised(kvs[b])]))
   IN /\ Len(col) = nb
      /\ \A b \in 1..nb : /\ Len(col[b]) = width
                          /\ got[b].ok /\ Len(got[b].keys) = Len(got[b].vals)
                          /\ SameElements([i \in 1..Len(got[b].keys) |-> << got[b].keys[i], got[b].vals[i] >>], kvs[b])

\* The answer to a list of selections: one entry per column for each.
Products(cols, sels) == [i \in 1..Len(sels) |-> [c \in 1..Len(cols) |-> Inner(cols[c], sels[i], Width(cols[c]))]]
ProductCodes(cols, sels) == { InnerCode(cols[c], sels, Width(cols[c])) : c \in 1..Len(cols) } \ {OK}
ProductCode(cols, sels) == IF ProductCodes(cols, sels) = {} THEN OK ELSE INVALID
EmptyAnswer(cols, sels) == \E c \in 1..Len(cols) : OnlyEmpty(cols[c], sels, Width(cols[c]))

(***************************************************************************)
(* Reading answers: qs the keys asked for, raw the unmasked items.          *)
(***************************************************************************)
IsPadded(x, key) == Len(key) > 0 /\ Len(x) >= Len(key) /\ x = PadTo(key, Len(x))
CuckooResult(h, qs, raw) ==
   [i \in 1..Len(qs) |->
      LET hits == { j \in 1..h : IsPadded(raw[2 * (h * (i - 1) + j) - 1], qs[i]) }
      IN IF hits = {} THEN << 0, <<>> >> ELSE << 1, raw[2 * (h * (i - 1) + (CHOOSE j \in hits : \A k \in hits : j <= k))] >>]
SimpleResult(qs, raw) ==
   [i \in 1..Len(qs) |->
      LET p == Parse(raw[i])
      IN IF \E j \in 1..Len(p.keys) : p.keys[j] = qs[i] THEN << 1, p.vals[FirstAt(p.keys, qs[i])] >> ELSE << 0, <<>> >>]
EndsInZero(k) == k # <<>> /\ k[Len(k)] = 0
\* What the records say about a key.
Stored(recs, k) == \E i \in 1..Len(recs) : recs[i][1] = k
ValueOf(recs, k) == recs[CHOOSE i \in 1..Len(recs) : recs[i][1] = k /\ \A j \in 1..(i - 1) : recs[j][1] # k][2]
=============================================================================
