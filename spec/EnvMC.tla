-------------------------------- MODULE EnvMC -------------------------------
(* Moves a declaration through surroundings, one aspect at a time.           *)
EXTENDS Env
CONSTANTS Prop

Names == {"core", "std", "Box", "Result", "Default"}
VARIABLES d, e, last
vars == <<d, e, last>>

Start == [std |-> TRUE, edition |-> 2021, unsafety |-> "allow", warnings |-> "allow", place |-> "module", names |-> {}]
Init == /\ d \in {x \in [what : {"field", "flag"}, heap : BOOLEAN] : x.what = "flag" => ~x.heap}
        /\ e = Start
        /\ last = "none"

Next ==
  /\ d' = d
  /\ \/ e' = [e EXCEPT !.std = ~@] /\ last' = "std"
     \/ \E n \in Names : e' = [e EXCEPT !.names = IF n \in @ THEN @ \ {n} ELSE @ \cup {n}] /\ last' = "names"
     \/ \E y \in Editions \ {e.edition} : e' = [e EXCEPT !.edition = y] /\ last' = "edition"
     \/ e' = [e EXCEPT !.unsafety = IF @ = "allow" THEN "forbid" ELSE "allow"] /\ last' = "unsafety"
     \/ e' = [e EXCEPT !.warnings = IF @ = "allow" THEN "deny" ELSE "allow"] /\ last' = "warnings"
     \/ \E p \in Places \ {e.place} : e' = [e EXCEPT !.place = p] /\ last' = "place"
Spec == Init /\ [][Next]_vars

(* Only the libraries of the crate decide. *)
Inv == /\ e.std => Verdict(d, e) = "accepted"
       /\ ~d.heap => Verdict(d, e) = "accepted"
       /\ d.heap /\ ~e.std => Verdict(d, e) = "rejected"
Steps == [][last' # "std" => Verdict(d', e') = Verdict(d, e)]_vars
=============================================================================
