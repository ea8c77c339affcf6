------------------------------- MODULE SeedsMC -------------------------------
(***************************************************************************)
(* The batched evaluation as it proceeds: four vectors of B blocks at a     *)
(* time, then single vectors, then a padded rest, level by level, on        *)
(* symbolic seeds.  Every seed ends where the one-block definition puts it  *)
(* and is handled exactly once, for all counts, widths and both layouts of  *)
(* correction words.                                                        *)
(* A seed is a sequence of steps; a correction word is named by its index.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN, Levels, Widths
VARIABLES n, B, perSeed, pos, lvl, lanes, out, times
vars == << n, B, perSeed, pos, lvl, lanes, out, times >>
CwIndex(j, i) == IF perSeed THEN (j - 1) * n + i ELSE j
Step(s, j, cwi) == Append(s, << j, cwi >>)
Size(p) == IF p + 4 * B <= n THEN 4 * B ELSE IF p + B <= n THEN B ELSE n - p
Init == /\ n \in 0..MaxN /\ B \in Widths /\ perSeed \in BOOLEAN
        /\ pos = 0 /\ lvl = 0 /\ lanes = <<>> /\ out = [i \in 1..n |-> << -1 >>] /\ times = [i \in 1..n |-> 0]
Load == /\ lvl = 0 /\ pos < n
        /\ lanes' = [i \in 1..Size(pos) |-> << pos + i >>] /\ lvl' = 1 /\ UNCHANGED << n, B, perSeed, pos, out, times >>
Down == /\ lvl \in 1..Levels
        /\ lanes' = [i \in DOMAIN lanes |-> Step(lanes[i], lvl, CwIndex(lvl, pos + i))]
        /\ lvl' = lvl + 1 /\ UNCHANGED << n, B, perSeed, pos, out, times >>
Write == /\ lvl = Levels + 1
         /\ out' = [i \in 1..n |-> IF i > pos /\ i <= pos + Len(lanes) THEN lanes[i - pos] ELSE out[i]]
         /\ times' = [i \in 1..n |-> IF i > pos /\ i <= pos + Len(lanes) THEN times[i] + 1 ELSE times[i]]
         /\ pos' = pos + Len(lanes) /\ lvl' = 0 /\ lanes' = <<>> /\ UNCHANGED << n, B, perSeed >>
Next == Load \/ Down \/ Write
Spec == Init /\ [][Next]_vars
RECURSIVE Alone(_,_)
Alone(i, j) == IF j = 0 THEN << i >> ELSE Step(Alone(i, j - 1), j, CwIndex(j, i))
Correct == pos = n => \A i \in 1..n : out[i] = Alone(i, Levels) /\ times[i] = 1
Bounded == pos <= n /\ pos + Len(lanes) <= n
=============================================================================
