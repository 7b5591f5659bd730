------------------------------- MODULE FlagMC -------------------------------
(* Every flag enum of at most MaxVariants variants over small integers, and  *)
(* every conversion.                                                         *)
EXTENDS Bitflag
CONSTANTS Prop, Shapes, MaxVariants      \* Shapes: 10 * bytes + bits of a byte

VARIABLES F, k, call, out
vars == <<F, k, call, out>>
View == <<F, k>>

Vals(n, m, on) == {q \in [1 .. m -> SUBSET Bits(n)] : \A i, j \in on : q[i] = q[j] => i = j}
None == [op |-> "none", x |-> {}, k |-> 1]

Init ==
  \E sh \in Shapes, fe \in {"big", "little"}, ie \in {"big", "little"}, m \in 1 .. MaxVariants :
  \E on \in SUBSET (1 .. m), base \in 0 .. m, dflt \in 0 .. m :
  \E q \in Vals((sh \div 10) * (sh % 10), m, on) :
    /\ base + dflt > 0
    /\ {base, dflt} \ {0} \subseteq on
    /\ F = [nb |-> sh \div 10, by |-> sh % 10, vals |-> q, on |-> on, base |-> base, dflt |-> dflt, fe |-> fe, ie |-> ie]
    /\ k = CHOOSE j \in on : TRUE
    /\ call = None /\ out = {}

Calls == {[None EXCEPT !.op = "from", !.x = x] : x \in SUBSET Bits(F.nb * F.by)}
         \cup {[None EXCEPT !.op = "into"]} \cup {[None EXCEPT !.op = "assign", !.k = j] : j \in F.on}
Next == \E e \in Calls : LET r == FlagEffect(F, k, e) IN k' = r.k /\ out' = r.b /\ call' = e /\ UNCHANGED F
Spec == Init /\ [][Next]_vars

Inv == WellFormed(F) /\ RoundTrip(F) /\ Injective(F) /\ SwapOnly(F) /\ WithoutIt(F)
Step == /\ Total(F, k')
        /\ call'.op = "from" => OthersFallBack(F, call'.x, k')
        /\ call'.op = "into" => k' = k /\ BitsAreDeclared(F, k, out')
        (* whatever was converted before, a variant that is assigned, encoded *)
        (* and decoded in the same byte order comes back                      *)
        /\ (call.op = "into" /\ call'.op = "from" /\ call'.x = out /\ F.fe = F.ie) => k' = k
Property == [][Step]_vars
=============================================================================
