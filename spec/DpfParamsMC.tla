----------------------------- MODULE DpfParamsMC -----------------------------
(***************************************************************************)
(* The tree that valid parameters give: every level has room for its values *)
(* and its own tree level, however the domain sizes and types are mixed.    *)
(***************************************************************************)
EXTENDS DpfParams
CONSTANTS MaxLen
T(k, b) == [k |-> k, b |-> b]
Mod(b, n) == [k |-> "mod", b |-> b, n |-> [c |-> 64, v |-> WordOf(n, 128)]]
Tup(t) == [k |-> "tup", t |-> t]
Types == { T("int", 1), T("int", 8), T("int", 32), T("int", 128), T("xor", 64), Mod(8, 251), Mod(32, 3),
           Tup(<< T("int", 8), T("int", 16) >>), Tup(<< T("int", 128), T("xor", 8) >>),
           Tup(<< Mod(16, 65521), T("int", 8) >>), T("int", 3), T("int", 0), Tup(<<>>), [k |-> "none"] }
Lds == {-1, 0, 1, 2, 3, 6, 7, 8, 63, 64, 65, 126, 127, 128, 129}
Secs == {0, 1000, 40000, 128000, 128001, -1}
VARIABLE ps
Init == ps = <<>>
Add == Len(ps) < MaxLen /\ \E ld \in Lds : \E t \in Types : \E s \in (IF Len(ps) = 0 THEN Secs ELSE {0, 128000}) :
          /\ (IF Len(ps) = 0 THEN TRUE ELSE ps[Len(ps)].ld < ld)
          /\ ps' = Append(ps, [ld |-> ld, has |-> 1, sec |-> [nan |-> 0, m |-> s], ty |-> t])
          /\ (IF Len(ps) = 0 THEN TRUE ELSE TRUE \in ParamsVerdict(ps))
Spec == Init /\ [][Add]_ps
Valid == TRUE \in ParamsVerdict(ps)
TreeFits == Valid =>
   LET lv == LevelsOf(ps) IN
   \A i \in 1..Len(lv) :
      /\ lv[i].tl >= 0 /\ lv[i].tl <= lv[i].ld
      /\ lv[i].epb >= 1
      /\ lv[i].ld - lv[i].tl <= 7
      /\ P2(lv[i].ld - lv[i].tl) <= lv[i].epb
      /\ (i > 1 => lv[i].tl > lv[i - 1].tl)
      \* a block really holds that many values
      /\ lv[i].epb > 1 => lv[i].epb * TotalBits(lv[i].L) <= 128
\* An invalid level makes every list that contains it invalid.
Monotone == Len(ps) > 1 /\ Valid => TRUE \in ParamsVerdict(SubSeq(ps, 1, Len(ps) - 1))
=============================================================================
