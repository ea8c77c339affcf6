----------------------------- MODULE SeedsTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the vectorised evaluation: each seed walks down its    *)
(* path by the one-block definition of DpfCore, with the correction words   *)
(* of its level (shared, or its own).                                       *)
(***************************************************************************)
EXTENDS DpfAES, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Schedule(k) == CASE k = <<41725,42422,2256,37727,15845,63136,14284,23520>> -> KeyLeft
                 [] k = <<19723,63087,8160,58090,620,57019,46766,61332>> -> KeyRight
                 [] OTHER -> KeySchedule(k)
\* Bit b of path p, false beyond its width.
PathBit(p, b) == IF b >= 128 THEN 0 ELSE BitW(p, b)
EvOk(e) ==
   LET kl == TLCEval(Schedule(e.kl))  kr == TLCEval(Schedule(e.kr))
       CwAt(j, i) == LET x == IF e.ncw = e.lv THEN j ELSE (j - 1) * e.n + i IN [s |-> e.cs[x], c |-> << e.cl[x], e.cr[x] >>]
       Step(acc, j, i) ==
          LET d == PathBit(e.p[i], e.lv - j + e.sh)
              g == TLCEval(FixedKeyHash(IF d = 0 THEN kl ELSE kr, acc[1]))
              cw == CwAt(j, i)
              h == TLCEval(IF acc[2] = 1 THEN Xor128(g, cw.s) ELSE g)
          IN << TLCEval(AClear(h)), IF acc[2] = 1 THEN (ALow(h) + cw.c[d + 1]) % 2 ELSE ALow(h) >>
       End(i) == FoldLeft(LAMBDA acc, j : TLCEval(Step(acc, j, i)), << e.s[i], e.t[i] >>, UpTo(e.lv))
   IN /\ e.kept = 1
      /\ IF e.ncw # e.lv /\ e.ncw # e.lv * e.n THEN e.code = 3
         ELSE /\ e.code = 0
              /\ e.lv > 0 => \A i \in 1..e.n : LET r == TLCEval(End(i)) IN e.so[i] = r[1] /\ e.to[i] = r[2]
EventOk(e) == CASE e.e = "ev" -> EvOk(e) [] e.e = "targets" -> e.n >= 1 [] OTHER -> FALSE
Exact == IF l = 1 THEN TRUE ELSE EventOk(Trace[l - 1])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
