------------------------------- MODULE Shape --------------------------------
(* What a generated type is, as a function of its declaration d:             *)
(*   what "field" or "flag"   kind "int" or "arr"   nb bytes   heap, copy    *)
(*   ig   number of ignored fields      der the traits the user derives      *)
(* The observable facts are numbers, truth values being 0 and 1.             *)
EXTENDS Naturals, Sequences

Traits == {"PartialEq", "Eq", "Hash", "PartialOrd", "Ord"}
FactNames == {"size", "align", "copy", "clone", "nostd", "ffi", "must_use"} \cup Traits
Any == 999999
B(x) == IF x THEN 1 ELSE 0

(* Holding nothing but its backing. *)
Plain(d) == ~d.heap /\ d.ig = 0

Fact(d, k) ==
  CASE k = "size"     -> IF Plain(d) THEN d.nb ELSE Any
    [] k = "align"    -> IF Plain(d) THEN IF d.kind = "arr" THEN 1 ELSE d.nb ELSE Any
    [] k = "copy"     -> B(d.copy /\ ~d.heap)
    [] k = "clone"    -> B(d.copy \/ "Clone" \in d.der)
    [] k \in Traits   -> B(k \in d.der)
    [] k = "nostd"    -> B(~d.heap)          \* usable in a crate without std
    [] k = "ffi"      -> B(Plain(d) /\ d.kind = "int")   \* passed like its backing
    [] k = "must_use" -> 1                   \* attributes of the user are kept
=============================================================================
