----------------------------- MODULE GroupsTrace -----------------------------
(***************************************************************************)
(* Recorded uses of the value types: every result is the specified one.     *)
(* Events are independent of each other; judged in a constraint, where TLC  *)
(* caches values.                                                           *)
(***************************************************************************)
EXTENDS DpfParams, Json, IOUtils
OKCODE == 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l

GroupOk(e) ==
   LET L == Leaves(e.ty) IN
   /\ ValidV(L, e.a) /\ ValidV(L, e.b)
   /\ e.add = AddV(L, e.a, e.b) /\ e.iadd = e.add
   /\ e.sub = SubV(L, e.a, e.b) /\ e.isub = e.sub
   /\ e.neg = NegV(L, e.a)
   /\ e.saadd = AddV(L, e.a, e.a)
   /\ e.sasub = ZeroV(L) /\ e.zero = ZeroV(L)
   /\ e.copy = e.a
   /\ e.eq = (IF e.a = e.b THEN 1 ELSE 0) /\ e.ne = 1 - e.eq
ValOk(e) ==
   LET L == Leaves(e.ty) IN
   /\ ValueOk(e.v, e.ty)
   /\ ValueLeaves(e.v, e.ty) = e.a
   /\ e.code = OKCODE /\ e.back = e.a /\ e.same = 1
   /\ e.epb = PerBlock(L)
FromOk(e) ==
   IF ValueOk(e.v, e.ty) THEN e.code = OKCODE /\ e.out = ValueLeaves(e.v, e.ty) ELSE e.code = 3
BytesOk(e) ==
   LET L == Leaves(e.ty)
       bs == TLCEval(e.bs)
   IN IF e.one = 1 THEN e.out = << ElementOf(L, bs, 0) >>
      ELSE e.out = [i \in 1..PerBlock(L) |-> ElementOf(L, bs, i - 1)]
\* Types that miss a modulus cannot be compared; otherwise equality is structural.
RECURSIVE Complete(_)
Complete(t) == CASE t.k = "mod" -> IntSet(t.n)
                 [] t.k = "tup" -> \A i \in 1..Len(t.t) : Complete(t.t[i])
                 [] OTHER -> t.k # "none"
TeqOk(e) ==
   /\ e.code = e.code2 /\ e.eq = e.eq2
   /\ IF Complete(e.a) /\ Complete(e.b)
      THEN e.code = OKCODE /\ e.eq = (IF TypeEq(e.a, e.b) THEN 1 ELSE 0)
      ELSE e.eq = 1 => e.a = e.b
\* Enough bits for one value; refused where the values would not be close to uniform.
BitsOk2(e) ==
   LET v == TypeSecure(e.ty, e.sec.m - 1, e.sec.m + 1)
       L == Leaves(e.ty)
   IN
   IF e.code = OKCODE THEN TRUE \in v /\ ((\E i \in 1..Len(L) : L[i].b < 8) \/ e.bits >= 8 * SampleBytes(L))
   ELSE FALSE \in v
SampOk(e) ==
   LET l1 == Leaves(e.ty)[1]
       L == [i \in 1..e.n |-> l1]
       v == IF e.n <= 0 \/ e.n > 30 THEN {FALSE} ELSE ModSecure(e.ty.n.v, e.n, e.sec.m - 1, e.sec.m + 1)
       need == 16 + (e.n - 1) * (l1.b \div 8)
   IN /\ IF e.ncode = OKCODE THEN TRUE \in v /\ e.need = need ELSE FALSE \in v
      /\ IF e.code = OKCODE THEN TRUE \in v /\ Len(e.bs) >= need /\ << e.out >> = << [i \in 1..e.n |-> SampledOf(L, e.bs)[i]] >>
         ELSE e.code = 3 /\ (FALSE \in v \/ Len(e.bs) < need)
\* The same for any base size and modulus.
ChkOk(e) ==
   LET below == e.b >= 128 \/ LeW(e.mod, ShlW(OneW(128), e.b))
       v == IF e.n <= 0 \/ e.n > 30 \/ e.b <= 0 \/ e.b > 128 THEN {FALSE}
            ELSE IF ~below THEN {FALSE} ELSE ModSecure(e.mod, e.n, e.sec.m - 1, e.sec.m + 1)
   IN /\ e.code = e.ncode /\ e.code \in {OKCODE, 3}
      /\ IF e.code = OKCODE THEN TRUE \in v /\ e.need = 16 + (e.n - 1) * ((e.b + 7) \div 8) ELSE FALSE \in v
WrapOk(e) == LET l1 == Leaves(e.ty)[1] IN e.out = ModW(e.v, l1.n)
EventOk(e) == CASE e.e = "g" -> GroupOk(e) [] e.e = "val" -> ValOk(e) [] e.e = "from" -> FromOk(e)
                [] e.e = "bytes" -> BytesOk(e) [] e.e = "teq" -> TeqOk(e) [] e.e = "bits" -> BitsOk2(e)
                [] e.e = "samp" -> SampOk(e) [] e.e = "chk" -> ChkOk(e) [] e.e = "wrap" -> WrapOk(e) [] OTHER -> FALSE
Exact == IF l = 1 THEN TRUE ELSE EventOk(Trace[l - 1])
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
