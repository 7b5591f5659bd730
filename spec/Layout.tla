------------------------------- MODULE Layout -------------------------------
(* Declarations of bitfields and the layout and access rules that follow     *)
(* from them.                                                                *)
(*                                                                           *)
(* A declaration d is a record                                               *)
(*   kind   "int" or "arr"        backing: an integer or a byte array        *)
(*   nb     number of bytes, by   bits per byte (8 in the implementation)    *)
(*   order  "lsb" or "msb"                                                   *)
(*   fe, ie, we  "big"/"little"   endianness of from / into / write          *)
(*   fields sequence of field records (ignored fields are not listed)        *)
(*   ig     number of ignored fields                                         *)
(* A field f is a record                                                     *)
(*   nm     its name                                                         *)
(*   ty     "u" unsigned, "i" signed, "b" bool, "a" byte array, "c" custom   *)
(*   n      its width in bits,  w  the width of its type                     *)
(*   acc    "rw", "ro", "wo", "na"                                           *)
(*   res    reserved (its name starts with an underscore)                    *)
(*   att    it has a bits attribute                                          *)
(*   hd, df whether it has a default, and the default as a value of its type *)
(*   ck, cw, cm, vals, fb   for custom types: how the type converts          *)
(*          "id"  the value is its bits, cw wide                             *)
(*          "inv" the value is the complement of its bits, cw wide           *)
(*          "tab" an enum: bits in vals stand for themselves, all others     *)
(*                convert to fb                                              *)
(*          "sat" the value is its bits, but bits that do not fit in cm bits   *)
(*                convert to fb                                              *)
(*   cfe, cie   for custom types: "little" when the type swaps the bytes in  *)
(*          its conversion from, into bits (a nested bitfield or flag enum   *)
(*          with its own endianness), and cb the bits per byte it uses       *)
EXTENDS BitVec

FieldIdx(d) == DOMAIN d.fields
Size(d) == d.nb * d.by

RECURSIVE SumBits(_, _)
SumBits(fs, k) == IF k = 0 THEN 0 ELSE fs[k].n + SumBits(fs, k - 1)

(* Fields in declaration order, from the least significant bit (lsb) or from *)
(* the most significant bit (msb).                                           *)
Offset(d, f) == IF d.order = "lsb" THEN SumBits(d.fields, f - 1)
                                   ELSE Size(d) - SumBits(d.fields, f)

HasSetter(fl) == ~fl.res /\ fl.acc \in {"rw", "wo"}
HasGetter(fl) == ~fl.res /\ fl.acc \in {"rw", "ro"}
HasBuilder(fl) == HasSetter(fl) \/ HasGetter(fl)

(* May the bit and range readers show the field?  Reserved fields can be     *)
(* read when they were given a bits attribute.                               *)
Readable(fl) == IF fl.res THEN fl.att ELSE fl.acc \in {"rw", "ro"}

(* The layout of d: everything the operations need, computed once.           *)
LayoutOf(d) ==
  LET off == [f \in FieldIdx(d) |-> Offset(d, f)]
      rng == [f \in FieldIdx(d) |-> off[f] .. (off[f] + d.fields[f].n - 1)]
  IN  [d      |-> d,
       size   |-> Size(d),
       off    |-> off,
       rng    |-> rng,
       wr     |-> UNION {rng[f] : f \in {g \in FieldIdx(d) : HasSetter(d.fields[g])}},
       rd     |-> UNION {rng[f] : f \in {g \in FieldIdx(d) : Readable(d.fields[g])}}]

(* Custom types: bits to value and back. *)
Swap(en, fl, x) == IF en = "little" THEN RevBytes(x, fl.cw \div fl.cb, fl.cb) ELSE x
FromC(fl, x) == LET y == Swap(fl.cfe, fl, x) IN
                CASE fl.ck = "id"  -> y
                  [] fl.ck = "inv" -> Compl(y, fl.cw)
                  [] fl.ck = "tab" -> IF y \in fl.vals THEN y ELSE fl.fb
                  [] fl.ck = "sat" -> IF FitsU(y, fl.cm) THEN y ELSE fl.fb
IntoC(fl, v) == Swap(fl.cie, fl,
                CASE fl.ck = "id"  -> v
                  [] fl.ck = "inv" -> Compl(v, fl.cw)
                  [] fl.ck \in {"tab", "sat"} -> v)

(* The n bits a field stores for a value of its type. *)
Enc(fl, val) == IF fl.ty = "c" THEN Trunc(IntoC(fl, val), fl.n) ELSE Trunc(val, fl.n)

(* The value of its type a field with the n stored bits x has. *)
Dec(fl, x) == CASE fl.ty = "i" -> SignExt(x, fl.n, fl.w)
                [] fl.ty = "c" -> FromC(fl, Trunc(x, fl.cw))
                [] OTHER       -> x

(* The bits stored when a field is loaded from raw bits. *)
Load(fl, x) == IF fl.ty = "c" THEN Enc(fl, FromC(fl, Trunc(x, fl.cw))) ELSE x

(* Does a value of the field's type fit in the field? *)
Fits(fl, val) == CASE fl.ty = "b" -> TRUE
                   [] fl.ty = "i" -> FitsS(val, fl.n, fl.w)
                   [] fl.ty = "c" -> FitsU(IntoC(fl, val), fl.n)
                   [] OTHER       -> FitsU(val, fl.n)
=============================================================================
