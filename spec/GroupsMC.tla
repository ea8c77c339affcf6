------------------------------ MODULE GroupsMC ------------------------------
(***************************************************************************)
(* The specified value types really are commutative groups, and drawing     *)
(* from bytes is well defined, at small widths, exhaustively.               *)
(***************************************************************************)
EXTENDS DpfParams
L1(k, b) == [k |-> k, b |-> b, n |-> <<>>]
Mn(b, n) == [k |-> "mod", b |-> b, n |-> << n >>]
Types == { << L1("int", 2) >>, << L1("int", 3) >>, << L1("xor", 3) >>, << Mn(3, 5) >>, << Mn(3, 8 - 1) >>, << Mn(2, 1) >>,
           << Mn(8, 6) >>, << L1("int", 1), Mn(2, 3) >>, << L1("xor", 1), L1("int", 2) >>, << Mn(2, 3), Mn(2, 2) >> }
Vals(L) == [1..Len(L) -> [1..1 -> 0..7]]
VARIABLES L, a, b
vars == << L, a, b >>
All2(X) == {v \in Vals(X) : ValidV(X, v)}
Init == L \in Types /\ a \in All2(L) /\ b \in All2(L)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws ==
   /\ ValidV(L, AddV(L, a, b)) /\ ValidV(L, NegV(L, a)) /\ ValidV(L, ZeroV(L))
   /\ AddV(L, a, b) = AddV(L, b, a)
   /\ AddV(L, a, ZeroV(L)) = a
   /\ AddV(L, a, NegV(L, a)) = ZeroV(L)
   /\ SubV(L, AddV(L, a, b), b) = a
   /\ \A c \in All2(L) : AddV(L, AddV(L, a, b), c) = AddV(L, a, AddV(L, b, c))
=============================================================================
