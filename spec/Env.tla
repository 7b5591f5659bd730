-------------------------------- MODULE Env ---------------------------------
(* The surroundings of a declaration and what they may change.               *)
(*   d: what "field" or "flag"   heap                                        *)
(*   e: std        the crate links the standard library                      *)
(*      edition    2015 .. 2024                                              *)
(*      unsafety   "allow" or "forbid"     warnings "allow" or "deny"        *)
(*      place      "module", "function" or "macro" (the parts of the         *)
(*                 declaration are fragments of a declarative macro)         *)
(*      names      the items that the user has next to the declaration       *)
(* Generated code refers to libraries by absolute paths only, holds no       *)
(* unsafe block and nothing the compiler warns about.                        *)
EXTENDS Naturals, FiniteSets

Editions == {2015, 2018, 2021, 2024}
Levels == {"unsafety", "warnings"}
Places == {"module", "function", "macro"}

(* Libraries that generated code needs, and those there are. *)
Needs(d) == IF d.heap THEN {"core", "std"} ELSE {"core"}
Linked(e) == IF e.std THEN {"core", "alloc", "std"} ELSE {"core"}

(* What a path of the generated code finds: an absolute path finds the       *)
(* library, whatever other items there are.                                  *)
Resolve(e, lib) == IF lib \in Linked(e) THEN "library" ELSE "nothing"

Verdict(d, e) == IF \A lib \in Needs(d) : Resolve(e, lib) = "library" THEN "accepted" ELSE "rejected"
=============================================================================
