--------------------------- MODULE HashFamiliesMC ---------------------------
(* The reduction and derivation operators of HashFamilies, exhaustively on
   small inputs: digests of up to MaxLen bytes from a small alphabet.       *)
EXTENDS HashFamilies
CONSTANTS MaxLen, MaxBound
VARIABLES d, m
Alphabet == {0, 1, 127, 128, 255}
Init == /\ d \in UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
        /\ m \in (1..MaxBound) \cup {255, 256, 257, 65535, 1073741823, 1073741824, 2147483647}
Next == FALSE /\ UNCHANGED << d, m >>
Spec == Init /\ [][Next]_<< d, m >>
ValueOf == FoldLeft(LAMBDA a, i : a * 256 + d[Len(d) + 1 - i], 0, UpTo(Len(d)))
InRange == ModBytes(d, m) >= 0 /\ ModBytes(d, m) < m
ModOk == ModBytes(d, m) = ValueOf % m
DerivedDistinct == \A i, j \in 1..30 : i # j => DerivedSeeds(30)[i] # DerivedSeeds(30)[j]
DigitsOk == Digits(0) = <<48>> /\ Digits(10) = <<49, 48>> /\ Digits(123) = <<49, 50, 51>>
=============================================================================
