------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* Self-tests of the arithmetic and cryptographic modules against the       *)
(* published examples.                                                     *)
(***************************************************************************)
EXTENDS DpfAES, Sha256
ASSUME TablesOk
ASSUME SchedulesOk
ASSUME AesSelfTest
ASSUME ShaSelfTest
ASSUME \A a, b \in {0, 1, 2, 255, 256, 65535, 65536, 99999} :
   LET x == WordOf(a, 40) y == WordOf(b, 40)
   IN /\ AddW(x, y, 40) = WordOf(a + b, 40)
      /\ SubW(AddW(x, y, 40), y, 40) = x
      /\ IsZero(AddW(x, NegW(x, 40), 40))
      /\ LtW(x, y) <=> a < b
      /\ (b > 0 => DivModW(x, y) = << WordOf(a \div b, 40), WordOf(a % b, 40) >>)
      /\ \A n \in 0..20 : /\ ShrW(x, n) = WordOf(a \div P2(n), 40)
                          /\ BitW(x, n) = (a \div P2(n)) % 2
      /\ \A n \in 0..10 : ShlW(x, n) = WordOf(a * P2(n), 40)
      /\ WordOfBytes(BytesOfWord(x, 5), 40) = x
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
