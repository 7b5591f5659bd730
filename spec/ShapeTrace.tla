----------------------------- MODULE ShapeTrace -----------------------------
(* Checks facts measured on real types against Shape.                        *)
EXTENDS Shape, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
SetOf(q) == {q[n] : n \in DOMAIN q}
Types == TLCEval([n \in DOMAIN Data.decls |-> [Data.decls[n] EXCEPT !.der = SetOf(@)]])

VARIABLES t, i
vars == <<t, i>>
TraceInit == t \in 1 .. Len(Data.traces) /\ i = 1
TraceNext ==
  /\ i > 0
  /\ i <= Len(Data.traces[t].ev)
  /\ LET e == Data.traces[t].ev[i]
         x == Fact(Types[Data.traces[t].d], e.k)
     IN  IF x = e.n \/ x = Any
         THEN i' = i + 1
         ELSE /\ PrintT(<<"REJECT", ToJson([t |-> t, i |-> i, fact |-> e, expected |-> x])>>)
              /\ i' = 0 - i
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<t, i>>
=============================================================================
