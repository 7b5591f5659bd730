----------------------------- MODULE FlagTrace ------------------------------
(* Checks recorded conversions of real flag enums against Bitflag, as Trace  *)
(* does for bitfields.                                                       *)
EXTENDS Bitflag, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
SetOf(q) == {q[n] : n \in DOMAIN q}
Flags == TLCEval([n \in DOMAIN Data.decls |->
           [Data.decls[n] EXCEPT !.vals = [m \in DOMAIN @ |-> SetOf(@[m])], !.on = SetOf(@)]])

VARIABLES t, i, k
vars == <<t, i, k>>

TraceInit == t \in 1 .. Len(Data.traces) /\ i = 1 /\ k = Data.traces[t].init
TraceNext ==
  /\ i > 0
  /\ i <= Len(Data.traces[t].ev)
  /\ LET e == Data.traces[t].ev[i]
         F == Flags[Data.traces[t].d]
         r == FlagEffect(F, k, [op |-> e.op, x |-> SetOf(e.x), k |-> e.k])
     IN  IF e.rk = "ok" /\ r.k = e.v /\ r.b = SetOf(e.rb)
         THEN i' = i + 1 /\ k' = r.k
         ELSE /\ PrintT(<<"REJECT", ToJson([t |-> t, i |-> i, call |-> e, before |-> k, allowed |-> r])>>)
              /\ i' = 0 - i
              /\ UNCHANGED k
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<t, i>>
=============================================================================
