------------------------------- MODULE RankMC -------------------------------
(* The rank criterion of Streams on all pairs/triples of 3-bit words: rank =
   dimension of the span, computed by enumeration.                          *)
EXTENDS Streams
VARIABLE v
Init == v \in [1..3 -> 0..7]
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v
Span == { ((IF a = 1 THEN v[1] ELSE 0) ^^ (IF b = 1 THEN v[2] ELSE 0)) ^^ (IF c = 1 THEN v[3] ELSE 0) :
          a \in 0..1, b \in 0..1, c \in 0..1 }
RankOk == P2(Rank([i \in 1..3 |-> << v[i] >>])) = Cardinality(Span)
=============================================================================
