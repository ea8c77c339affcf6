-------------------------------- MODULE DcfMC --------------------------------
(***************************************************************************)
(* The comparison function on n bits over an ideal incremental DPF (whose   *)
(* shares D01 establishes), and the interval gate (Figure 14 of eprint      *)
(* 2020/1392) over an ideal comparison function, for all small parameters.  *)
(* The walk down the bits of x is a state machine, one level per step.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN, M, MaxG, Mode
VARIABLES n, alpha, beta, x, lvl, acc, g
vars == << n, alpha, beta, x, lvl, acc, g >>
\* Shares of the incremental DPF: party 0 gets an arbitrary value, party 1 the difference.
Bit(v, i) == (v \div 2^(n - i)) % 2                      \* bit i of an n-bit number, from the top
BetaAt(i) == IF Bit(alpha, i) = 1 THEN beta ELSE 0       \* value of level i
PointAt(i) == IF (x \div 2^(n - i + 1)) = (alpha \div 2^(n - i + 1)) THEN BetaAt(i) ELSE 0
InitC == /\ Mode = "dcf" /\ n \in 1..MaxN /\ alpha \in 0..(2^n - 1) /\ beta \in 0..(M - 1) /\ x \in 0..(2^n - 1)
         /\ lvl = 1 /\ acc \in {<< 0, 0 >>} /\ g = << >>
Level == /\ Mode = "dcf" /\ lvl <= n
         /\ \E r \in 0..(M - 1) :
              acc' = IF Bit(x, lvl) = 0 THEN << (acc[1] + r) % M, (acc[2] + PointAt(lvl) - r + M) % M >> ELSE acc
         /\ lvl' = lvl + 1 /\ UNCHANGED << n, alpha, beta, x, g >>
DcfCorrect == (Mode = "dcf" /\ lvl = n + 1) => (acc[1] + acc[2]) % M = (IF x < alpha THEN beta ELSE 0)

\* The gate on Z_N, N = 2^n: g = [p, q, rin, rout, x].
NN == 2^n
InitG == /\ Mode = "mic" /\ n \in 1..MaxG
         /\ g \in [p : 0..(2^n - 1), q : 0..(2^n - 1), rin : 0..(2^n - 1), rout : {0, 1, 2^n - 1}, x : 0..(2^n - 1)]
         /\ g.p <= g.q
         /\ alpha = (NN - 1 + g.rin) % NN /\ beta = 1 /\ x = g.x /\ lvl = 0 /\ acc = << 0, 0 >>
One(b) == IF b THEN 1 ELSE 0
Lt(v) == One(v < alpha)
Z == LET qp == (g.q + 1) % NN
         ap == (g.p + g.rin) % NN
         aq == (g.q + g.rin) % NN
         aqp == (g.q + 1 + g.rin) % NN
     IN (g.rout + One(ap > aq) - One(ap > g.p) + One(aqp > qp) + One(aq = NN - 1) + NN) % NN
MicCorrect == Mode = "mic" =>
   LET qp == (g.q + 1) % NN
       sp == Lt((g.x + NN - 1 - g.p) % NN)
       sq == Lt((g.x + NN - 1 - qp) % NN)
       y == (One(g.x > g.p) - One(g.x > qp) - sp + sq + Z + 2 * NN) % NN
       u == (g.x - g.rin + NN) % NN
   IN y = (g.rout + One(g.p <= u /\ u <= g.q)) % NN
Init == InitC \/ InitG
Next == Level
Spec == Init /\ [][Next]_vars
=============================================================================
