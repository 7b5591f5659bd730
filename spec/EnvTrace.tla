------------------------------ MODULE EnvTrace ------------------------------
(* Checks what the compiler says about declarations in surroundings.         *)
EXTENDS Env, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
SetOf(q) == {q[n] : n \in DOMAIN q}
VARIABLES t, i
vars == <<t, i>>
TraceInit == t \in 1 .. Len(Data.traces) /\ i = 1
TraceNext ==
  /\ i > 0
  /\ i <= Len(Data.traces[t].ev)
  /\ LET x == Data.traces[t].ev[i]
         v == Verdict(Data.decls[Data.traces[t].d], [x.env EXCEPT !.names = SetOf(@)])
     IN  IF v = x.verdict
         THEN i' = i + 1
         ELSE /\ PrintT(<<"REJECT", ToJson([t |-> t, i |-> i, env |-> x.env, expected |-> v])>>)
              /\ i' = 0 - i
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<t, i>>
=============================================================================
