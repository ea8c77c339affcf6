---------------------------- MODULE PrimsTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the primitives against their definitions.          *)
(***************************************************************************)
EXTENDS Streams, Json, IOUtils
HF == INSTANCE HashFamilies
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, gens     \* gens: id -> [seed, nonce, pos] of open generators
vars == << l, gens >>
Ev == Trace[l]

Init == l = 1 /\ gens = << >>
New == Ev.e = "new" /\ gens' = << >>

(* hash families *)
HashCall == /\ Ev.e = "h" /\ UNCHANGED gens
            /\ Ev.r = IF Ev.fam = "sha" THEN HF!ShaHash(Ev.seed, Ev.in, Ev.ub)
                      ELSE HF!FarmHash(Ev.fp, Ev.ub)
\* F(seed, x) is a function of seed \o x alone, however long: the parts do not matter.
Long == /\ Ev.e = "big" /\ UNCHANGED gens
        /\ \A i \in 1..Len(Ev.r) : Ev.r[i] = Ev.r[1] /\ Ev.r[i] \in 0..(Ev.ub - 1)
\* Ev.seeds: the seed behind each returned function, in the order returned.
Derive == /\ Ev.e = "mk" /\ UNCHANGED gens
          /\ Ev.code = HF!DeriveCode(Ev.n)
          /\ Ev.code = OK => Ev.seeds = HF!DerivedSeeds(Ev.n) /\ Ev.cnt = Ev.n
Config == /\ Ev.e = "cfg" /\ UNCHANGED gens
          /\ Ev.code = HF!ConfigCode(Ev.fam, Ev.seed)

(* fixed-key hash: an arena of blocks before and after one call *)
Fkh == /\ Ev.e = "fkh" /\ UNCHANGED gens
       /\ Ev.key2 = Ev.key
       /\ Len(Ev.after) = Len(Ev.before)
       /\ IF Ev.m # Ev.n THEN Ev.code = INVALID /\ Ev.after = Ev.before
          ELSE LET ks == KeySchedule(Ev.key)
                   want == FoldLeft(LAMBDA acc, i :
                              Append(acc, IF i > Ev.oo /\ i <= Ev.oo + Ev.n
                                          THEN FixedKeyHash(ks, Ev.before[i - Ev.oo + Ev.oi])
                                          ELSE Ev.before[i]),
                              <<>>, UpTo(Len(Ev.before)))
               IN Ev.code = OK /\ Ev.after = want

(* seeded streams *)
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Open == /\ Ev.e = "prng"
        /\ Ev.ss = 16
        /\ LET nonce == IF Ev.has = 1 THEN Ev.nonce ELSE Zero16
           IN /\ Ev.code = CreateCode(Ev.seed, nonce)
              /\ gens' = IF Ev.code = OK
                         THEN Put(gens, Ev.id, [seed |-> Ev.seed, nonce |-> nonce, pos |-> 0])
                         ELSE gens
Get == /\ Ev.e = "get"
       /\ LET g == gens[Ev.id]
          IN /\ Ev.out = StreamBytes(g.seed, g.nonce, g.pos, Ev.n)
             /\ gens' = [gens EXCEPT ![Ev.id].pos = @ + Ev.n]
Skip == /\ Ev.e = "skip" /\ Ev.len = Ev.n
        /\ LET g == gens[Ev.id]
           IN /\ Ev.out = StreamBytes(g.seed, g.nonce, g.pos + Ev.n - Ev.tail, Ev.tail)
              /\ gens' = [gens EXCEPT ![Ev.id].pos = @ + Ev.n]
Seeds == /\ Ev.e = "seeds" /\ UNCHANGED gens
         /\ Ev.code = OK /\ Len(Ev.out) = Ev.n
         /\ \A i \in 1..Len(Ev.out) : Len(Ev.out[i]) = 16
         /\ AllDistinct(Ev.out)
         /\ FullRank([i \in 1..Len(Ev.out) |-> WordOfBytes(Ev.out[i], 128)], 128)

(* basic generator: Ev.d is the sequence of draws [w, code, v] *)
Of(w) == SelectSeq(Ev.d, LAMBDA x : x.w = w)
Vals(w) == LET s == Of(w) IN [i \in 1..Len(s) |-> s[i].v]
Halves == Vals(64) \o LET v == Vals(128)
                      IN [i \in 1..(2 * Len(v)) |->
                            LET x == v[(i + 1) \div 2]
                            IN IF i % 2 = 1 THEN SubSeq(x, 1, 4) ELSE SubSeq(x, 5, 8)]
Octets == LET b == Vals(8)   \* runs of eight consecutive 8-bit draws, as 64-bit words
          IN [i \in 1..(Len(b) \div 8) |-> WordOfBytes([k \in 1..8 |-> b[8*(i-1)+k][1]], 64)]
Draws == /\ Ev.e = "rng" /\ UNCHANGED gens
         /\ \A i \in 1..Len(Ev.d) : Ev.d[i].code = OK /\ IsWord(Ev.d[i].v, Ev.d[i].w)
         /\ AllDistinct(Halves \o Octets)
         /\ \A w \in {8, 64, 128} : Len(Vals(w)) >= w + 64 => FullRank(Vals(w), w)
DrawFails == /\ Ev.e = "rngfail" /\ UNCHANGED gens
             /\ Ev.calls > 0 => Ev.code = INTERNAL
             /\ Ev.calls = 0 => Ev.code = OK

Next == l <= Len(Trace) /\ l' = l + 1 /\
        (New \/ HashCall \/ Long \/ Derive \/ Config \/ Fkh \/ Open \/ Get \/ Skip \/ Seeds \/ Draws \/ DrawFails)
Spec == Init /\ [][Next]_vars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
