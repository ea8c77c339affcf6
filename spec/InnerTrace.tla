------------------------------ MODULE InnerTrace ------------------------------
(* Recorded inner products over explicit memory, against their definition.   *)
EXTENDS Pir, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Product(e) ==
   /\ e.kept = 1
   /\ e.code = InnerCode(e.vals, e.sel, e.max)
   /\ OnlyEmpty(e.vals, e.sel, e.max) => e.pay = MAX_VALUE_SIZE_IS_ZERO
   /\ e.max > 0 \/ e.code = OK => e.pay = -1
   /\ e.res = (IF e.code = OK THEN Inners(e.vals, e.sel, e.max) ELSE <<>>)
Exact == IF l = 1 THEN TRUE
         ELSE IF Trace[l - 1].e = "ip" THEN Product(Trace[l - 1]) ELSE TRUE
Next == l <= Len(Trace) /\ Trace[l].e \in {"ip", "targets"} /\ l' = l + 1
Spec == Init /\ [][Next]_l
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
