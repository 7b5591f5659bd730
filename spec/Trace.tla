------------------------------- MODULE Trace --------------------------------
(* Checks recorded executions of the real code against the specification.    *)
(* The file named by the environment variable TRACES holds declarations and  *)
(* traces: for every call its arguments, the result that the real code       *)
(* returned and the state (backing value and ignored fields) it left.        *)
(* Each step of this specification consumes one event and takes the          *)
(* corresponding step of Bitfield; an event that Bitfield does not allow is  *)
(* reported and ends its trace.                                              *)
EXTENDS Bitfield, TLC, Json, IOUtils, SequencesExt

Data == JsonDeserialize(IOEnv.TRACES)

SetOf(q) == {q[k] : k \in DOMAIN q}

DeclOf(j) ==
  [j EXCEPT !.fields = [k \in DOMAIN j.fields |->
     [j.fields[k] EXCEPT !.df = SetOf(@), !.fb = SetOf(@),
                         !.vals = {SetOf(@[m]) : m \in DOMAIN @}]]]
Layouts == TLCEval([k \in DOMAIN Data.decls |-> LayoutOf(DeclOf(Data.decls[k]))])

CallOf(e) ==
  [op |-> e.op, f |-> e.f, x |-> SetOf(e.x), o |-> e.o, l |-> e.l, en |-> e.en, wd |-> e.wd, ck |-> e.ck,
   st |-> [k \in DOMAIN e.st |-> [f |-> e.st[k].f, ck |-> e.st[k].ck, x |-> SetOf(e.st[k].x)]]]

ResultOf(e) ==
  Ret(e.rk, SetOf(e.rb),
      IF e.op = "debug" THEN [k \in DOMAIN e.rs |-> [n |-> e.rs[k].n, b |-> SetOf(e.rs[k].b), l |-> e.rs[k].l]]
                        ELSE e.rs)

NT == Len(Data.traces)

VARIABLES t, i, v, ig
vars == <<t, i, v, ig>>

TraceInit == /\ t \in 1 .. NT
             /\ i = 1
             /\ v = SetOf(Data.traces[t].init)
             /\ ig = [k \in 1 .. Layouts[Data.traces[t].d].d.ig |-> 0]

Events == Data.traces[t].ev

TraceNext ==
  /\ i > 0
  /\ i <= Len(Events)
  /\ LET e == Events[i]
         L == Layouts[Data.traces[t].d]
         x == Effect(L, [v |-> v, ig |-> ig], CallOf(e))
     IN  IF Callable(L, CallOf(e)) /\ x.r = ResultOf(e) /\ x.v = SetOf(e.v) /\ x.ig = e.ig
         THEN i' = i + 1 /\ v' = x.v /\ ig' = x.ig
         ELSE /\ PrintT(<<"REJECT", ToJson([t |-> t, i |-> i, call |-> e, before |-> v, allowed |-> x])>>)
              /\ i' = 0 - i
              /\ UNCHANGED <<v, ig>>
  /\ t' = t

TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<t, i>>
=============================================================================
