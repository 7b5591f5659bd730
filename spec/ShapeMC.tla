------------------------------ MODULE ShapeMC -------------------------------
(* All kinds of types: the facts about one type are consistent.              *)
EXTENDS Shape
CONSTANTS Prop

VARIABLES d, k, n
Types == [what : {"field", "flag"}, kind : {"int", "arr"}, nb : 1 .. 17, heap : BOOLEAN, copy : BOOLEAN, ig : 0 .. 2,
          der : SUBSET {"PartialEq", "Hash", "Clone"}]
Init == /\ d \in {x \in Types : x.what = "flag" => ~x.heap /\ x.ig = 0 /\ x.kind = "int"}
        /\ k = "none" /\ n = 0
Next == /\ k = "none"
        /\ k' \in FactNames
        /\ n' = Fact(d, k')
        /\ d' = d
Spec == Init /\ [][Next]_<<d, k, n>>

Inv ==
  /\ (k = "copy" /\ n = 1) => Fact(d, "clone") = 1 /\ ~d.heap
  /\ (k = "size" /\ n # Any) => n = d.nb /\ (n % Fact(d, "align")) = 0
  /\ (k = "ffi" /\ n = 1) => Fact(d, "size") = d.nb
  /\ k \notin {"size", "align"} => n \in {0, 1}
=============================================================================
