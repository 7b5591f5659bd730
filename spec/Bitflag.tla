------------------------------ MODULE Bitflag -------------------------------
(* A flag enum: declared variants with distinct values, at most one of them  *)
(* the base and at most one the default, and a byte order for each direction *)
(* of conversion.  The state is the variant held (a position in vals).       *)
(*   F.nb bytes of F.by bits, F.vals the value of each variant, F.on the     *)
(*   positions of the variants that are configured in, F.base and F.dflt     *)
(*   positions or 0, F.fe and F.ie "big" or "little"                         *)
(* A variant that is configured out does not exist: its value is free.       *)
EXTENDS BitVec

Order(F, s, en) == IF en = "little" THEN RevBytes(s, F.nb, F.by) ELSE s

Encoding(F, k) == Order(F, F.vals[k], F.ie)

(* What every integer that is no variant's value converts to. *)
Fallback(F) == IF F.base # 0 THEN F.base ELSE F.dflt

Decoding(F, x) ==
  LET y == Order(F, x, F.fe)
      hit == {k \in F.on : F.vals[k] = y}
  IN  IF hit = {} THEN Fallback(F) ELSE CHOOSE k \in hit : TRUE

WellFormed(F) ==
  /\ F.on \subseteq DOMAIN F.vals
  /\ \A j, k \in F.on : F.vals[j] = F.vals[k] => j = k
  /\ \A k \in DOMAIN F.vals : FitsU(F.vals[k], F.nb * F.by)
  /\ {F.base, F.dflt} \ {0} \subseteq F.on
  /\ Fallback(F) \in F.on

(* One call: from_bits(x) makes the state the result; into_bits of the state *)
(* leaves it; assign replaces it by a variant.                               *)
FlagEffect(F, k, e) ==
  CASE e.op = "from"   -> [k |-> Decoding(F, e.x), b |-> {}]
    [] e.op = "into"   -> [k |-> k, b |-> Encoding(F, k)]
    [] e.op = "assign" -> [k |-> e.k, b |-> {}]

(* The properties of conversion (P18), each for one step of the machine.     *)
Total(F, k2) == k2 \in F.on
BitsAreDeclared(F, k, b) == (F.ie = "big" => b = F.vals[k]) /\ (F.ie = "little" => RevBytes(b, F.nb, F.by) = F.vals[k])
RoundTrip(F) == F.fe = F.ie => \A k \in F.on : Decoding(F, Encoding(F, k)) = k
Injective(F) == \A j, k \in F.on : Encoding(F, j) = Encoding(F, k) => j = k
OthersFallBack(F, x, k2) ==
  (\A k \in F.on : F.vals[k] # Order(F, x, F.fe)) => k2 = (IF F.base # 0 THEN F.base ELSE F.dflt)
(* A variant that is configured out is as good as one that was never written. *)
WithoutIt(F) == \A j \in DOMAIN F.vals \ F.on, v \in SUBSET Bits(F.nb * F.by), x \in SUBSET Bits(F.nb * F.by) :
                  Decoding([F EXCEPT !.vals[j] = v], x) = Decoding(F, x)
SwapOnly(F) == \A x \in SUBSET Bits(F.nb * F.by) :
                 Decoding([F EXCEPT !.fe = "little"], x) = Decoding([F EXCEPT !.fe = "big"], RevBytes(x, F.nb, F.by))
=============================================================================
