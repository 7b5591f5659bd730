------------------------------ MODULE ApiTrace ------------------------------
(* Checks what the compiler said exists against Api.  An observation names   *)
(* the arguments, the features and the place, what was probed and what was   *)
(* found there.                                                              *)
EXTENDS Api, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
SetOf(q) == {q[k] : k \in DOMAIN q}

Expected(D, e) ==
  CASE e.k = "items" -> Items(D, e.A, SetOf(e.F))
    [] e.k = "facts" -> Facts(D, e.A, SetOf(e.F)) \cap SetOf(e.probed)
    [] e.k = "flag"  -> FlagFacts(e.A, SetOf(e.F))
    [] e.k = "seen"  -> VisibleItems(D, e.place)

(* everything that could be expected must have been probed, so that the      *)
(* absence of something is noticed                                           *)
Complete(D, e) ==
  CASE e.k = "items" -> Universe(D) = SetOf(e.probed)
    [] e.k = "facts" -> SetOf(e.probed) \subseteq AllFacts
    [] e.k = "flag"  -> {"impl Copy", "impl Clone"} \subseteq SetOf(e.probed)
    [] e.k = "seen"  -> WholeItems(D) \cup UNION {AllFieldItems(f) : f \in Fields(D)} \cup IgnoredItems(D)
                        \cup (IF e.place = "inner" THEN {} ELSE Storage(D)) = SetOf(e.probed)

VARIABLES t, i
vars == <<t, i>>
TraceInit == t \in 1 .. Len(Data.traces) /\ i = 1
TraceNext ==
  /\ i > 0
  /\ i <= Len(Data.traces[t].ev)
  /\ LET e == Data.traces[t].ev[i]
         D == Data.decls[Data.traces[t].d]
     IN  /\ Assert(Complete(D, e), <<"the probes do not match the specification", D, e>>)
         /\ IF SetOf(e.seen) = Expected(D, e) THEN i' = i + 1
            ELSE /\ PrintT(<<"REJECT", ToJson([t |-> t, i |-> i, missing |-> Expected(D, e) \ SetOf(e.seen),
                                               extra |-> SetOf(e.seen) \ Expected(D, e)])>>)
                 /\ i' = i + 1
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == vars
=============================================================================
