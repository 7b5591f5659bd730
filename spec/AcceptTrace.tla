---------------------------- MODULE AcceptTrace -----------------------------
(* Checks the compiler's verdict on declarations against Accept: each trace  *)
(* is one declaration, read step by step; its last event is the verdict:     *)
(* "accepted", "rejected", or "panicked" when the macro itself fails; or the *)
(* part of a rejected declaration that the error points at (P27).            *)
EXTENDS Accept, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
SetOf(q) == {q[k] : k \in DOMAIN q}
DeclOf(j) == IF "vars" \in DOMAIN j
             THEN [j EXCEPT !.vars = [k \in DOMAIN j.vars |-> [j.vars[k] EXCEPT !.mag = SetOf(@)]]]
             ELSE [j EXCEPT !.fields = [k \in DOMAIN j.fields |-> [j.fields[k] EXCEPT !.mag = SetOf(@)]]]
Decls == TLCEval([k \in DOMAIN Data.decls |-> DeclOf(Data.decls[k])])

VARIABLES t, i, s
vars == <<t, i, s>>
D == Decls[Data.traces[t].d]
IsFlag == "vars" \in DOMAIN D
Finished == IF IsFlag THEN FlagDone(D, s) ELSE Done(D, s)

TraceInit == t \in 1 .. Len(Data.traces) /\ i = 1 /\ s = IF "vars" \in DOMAIN Decls[Data.traces[t].d] THEN FlagStart ELSE Start
Ev == Data.traces[t].ev[1]
Verdict == Ev.verdict
Points == Verdict = "rejected" /\ (s.bad = "none" \/ Ev.at \in IF IsFlag THEN FlagBlame(D) ELSE Blame(D))
Judge == LET ok == s.bad = "none"
         IN  IF ~IsFlag /\ ok /\ Open(D) THEN Verdict # "panicked" ELSE Verdict = IF ok THEN "accepted" ELSE "rejected"
TraceNext ==
  /\ i > 0
  /\ t' = t
  /\ IF ~Finished
     THEN i' = i + 1 /\ s' = IF IsFlag THEN ReadFlag(D, s) ELSE Read(D, s)
     ELSE /\ s' = s
          /\ i' = 0
          /\ PrintT(<<"JUDGED", IF s.bad = "none" THEN IF ~IsFlag /\ Open(D) THEN "open" ELSE "accept" ELSE s.bad>>)
          /\ (IF "at" \in DOMAIN Ev THEN Points ELSE Judge) \/ PrintT(<<"REJECT", ToJson([t |-> t, i |-> i, why |-> s.bad, verdict |-> Verdict])>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == vars
=============================================================================
