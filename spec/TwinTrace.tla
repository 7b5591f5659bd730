----------------------------- MODULE TwinTrace ------------------------------
(* Lockstep of two recordings: the same calls on a declaration backed by an  *)
(* integer (a) and by a byte array of its size (b).  Every pair of calls has *)
(* to give the same result and leave the same value; conversions agree when  *)
(* the byte order is exchanged, because an integer is converted from its     *)
(* most and an array from its least significant byte on.  Each recording is  *)
(* also checked against Bitfield by Trace.                                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)

Other(en) == CASE en = "le" -> "be" [] en = "be" -> "le" [] OTHER -> en

SameCall(a, b) ==
  /\ a.op = b.op /\ a.f = b.f /\ a.x = b.x /\ a.o = b.o /\ a.l = b.l /\ a.wd = b.wd /\ a.ck = b.ck /\ a.st = b.st
  /\ b.en = IF a.op \in {"from", "into"} THEN Other(a.en) ELSE a.en

SameResult(a, b) ==
  /\ a.rk = b.rk /\ a.rb = b.rb
  /\ IF a.op = "debug"
     THEN /\ Len(a.rs) = Len(b.rs)
          /\ \A k \in DOMAIN a.rs : (k > 1 => a.rs[k].n = b.rs[k].n) /\ a.rs[k].b = b.rs[k].b
     ELSE a.rs = b.rs

VARIABLES t, i, v
vars == <<t, i, v>>
TraceInit == t \in 1 .. Len(Data.traces) /\ i = 1 /\ v = Data.traces[t].init
TraceNext ==
  /\ i > 0
  /\ i <= Len(Data.traces[t].ev)
  /\ LET e == Data.traces[t].ev[i]
     IN  IF SameCall(e.a, e.b) /\ SameResult(e.a, e.b) /\ e.a.v = e.b.v /\ e.a.ig = e.b.ig
         THEN i' = i + 1 /\ v' = e.a.v
         ELSE /\ PrintT(<<"REJECT", ToJson([t |-> t, i |-> i, a |-> e.a, b |-> e.b, before |-> v])>>)
              /\ i' = 0 - i
              /\ UNCHANGED v
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<t, i>>
=============================================================================
