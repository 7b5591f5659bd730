------------------------------- MODULE Accept -------------------------------
(* Which declarations compile.                                               *)
(*                                                                           *)
(* A bitfield declaration is                                                 *)
(*   item   "struct" (named fields), "generic" a struct with parameters,     *)
(*          "tuple", "unit", "enum", "fn"                                    *)
(*   by     bits per byte                                                    *)
(*   back   the backing type       args  the further arguments               *)
(*   fields the fields                                                       *)
(* A type is [t, w, et, len]:                                                *)
(*   t  "u", "i" an integer of w bits, "bool", "float", "size" (usize and    *)
(*      isize), "custom" another named type, "arr" an array of len elements  *)
(*      of type et (len -1: not a plain number), "odd" a reference or tuple, *)
(*      "none" nothing                                                       *)
(* An argument is [k, v, shape]: key, value, "kv" or how it is malformed.    *)
(* A field is [nm, res, ty, attr, bk, n, args, dk, neg, mag]:                *)
(*   attr "none" no bits attribute, "list", "twice" two lists, or malformed  *)
(*   bk   "no" no number of bits, "ok" the number n, or malformed            *)
(*   dk   default: "none", "int" (-1 times mag if neg; a set of bit          *)
(*        positions), "bool", "float", "path", "bad", "arr"                  *)
(* A flag enum is [item, by, back, args, vars]; a variant is                 *)
(*   [nm, has, neg, mag, base, dflt, shape] with shape "unit" or "data".     *)
EXTENDS BitVec

BoolArgs == {"new", "from_into_bits", "from_traits", "default", "debug", "copy", "bit_ops", "write_bit_ops", "clear_bit_ops",
             "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops", "builder", "array_heap"}
EndianArgs == {"from_endian", "into_endian", "write_endian"}

ArgOk(a) ==
  /\ a.shape = "kv"
  /\ CASE a.k \in BoolArgs   -> a.v \in {"true", "false"}
       [] a.k \in EndianArgs -> a.v \in {"big", "little"}
       [] a.k = "order"      -> a.v \in {"lsb", "msb"}
       [] OTHER              -> FALSE
FieldArgOk(a) ==
  /\ a.shape = "kv"
  /\ CASE a.k = "access"  -> a.v \in {"rw", "ro", "wo", "na"}
       [] a.k = "ignore"  -> a.v \in {"true", "false"}
       [] a.k = "default" -> TRUE
       [] OTHER           -> FALSE
FlagArgOk(a) ==
  /\ a.shape = "kv"
  /\ CASE a.k = "copy" -> a.v \in {"true", "false"}
       [] a.k \in {"from_endian", "into_endian"} -> a.v \in {"big", "little"}
       [] OTHER -> FALSE
All(q, P(_)) == \A k \in DOMAIN q : P(q[k])
Has(q, key, val) == \E k \in DOMAIN q : q[k].k = key /\ q[k].v = val
Given(q, key) == \E k \in DOMAIN q : q[k].k = key

ByteArray(ty) == ty.t = "arr" /\ ty.et = "u8" /\ ty.len >= 1
BackingOk(ty) == ty.t = "u" \/ ByteArray(ty)
FieldTypeOk(ty) == ty.t \in {"u", "i", "bool", "custom"} \/ ByteArray(ty)
TypeBits(ty, by) == CASE ty.t = "arr" -> ty.len * by [] ty.t = "bool" -> 1 [] OTHER -> ty.w

Ignored(f) == Has(f.args, "ignore", "true")

(* mag is at most 2^n *)
AtMostPow(mag, n) == FitsU(mag, n) \/ mag = {n}

DefaultOk(f, n) ==
  CASE f.dk \in {"none", "path", "arr"} -> TRUE
    [] f.dk = "bool" -> f.ty.t = "bool"
    [] f.dk = "int"  -> CASE f.ty.t = "u" -> ~f.neg /\ FitsU(f.mag, n)
                          [] f.ty.t = "i" -> IF f.neg THEN AtMostPow(f.mag, n - 1) ELSE FitsU(f.mag, n)
                          [] f.ty.t = "bool" -> FALSE
                          [] OTHER -> TRUE
    [] OTHER -> FALSE

(* Declarations about which nothing is promised: a positive literal that     *)
(* only fits a signed field as its bit pattern, and literal defaults of      *)
(* arrays and custom types.                                                  *)
OpenField(f, n) ==
  \/ f.dk = "int" /\ f.ty.t = "i" /\ ~f.neg /\ FitsU(f.mag, n) /\ ~FitsU(f.mag, n - 1)
  \/ f.dk \in {"int", "bool", "float", "arr"} /\ f.ty.t \in {"arr", "custom"}
  \/ f.dk \in {"arr"}

(* ---------------------- the rules, as one statement ---------------------- *)
Width(f, by) == IF f.bk = "ok" THEN f.n ELSE TypeBits(f.ty, by)
Real(d) == {k \in DOMAIN d.fields : ~Ignored(d.fields[k])}
RECURSIVE Total(_, _, _)
Total(fs, by, k) == IF k = 0 THEN 0
                    ELSE (IF Ignored(fs[k]) THEN 0 ELSE Width(fs[k], by)) + Total(fs, by, k - 1)

FieldCoherent(f, by) ==
  /\ f.attr \in {"none", "list"}
  /\ f.bk \in {"no", "ok"}
  /\ All(f.args, FieldArgOk)
  /\ ~Ignored(f) =>
       /\ FieldTypeOk(f.ty)
       /\ f.res => ~Given(f.args, "access")
       /\ f.ty.t = "custom" => f.bk = "ok"
       /\ Width(f, by) >= 1
       /\ f.ty.t # "custom" => Width(f, by) <= TypeBits(f.ty, by)
       /\ DefaultOk(f, Width(f, by))

Coherent(d) ==
  /\ d.item = "struct"
  /\ BackingOk(d.back)
  /\ All(d.args, ArgOk)
  /\ \A k \in DOMAIN d.fields : FieldCoherent(d.fields[k], d.by)
  /\ \A j, k \in DOMAIN d.fields : (j # k /\ d.fields[j].nm = d.fields[k].nm) => d.fields[j].res /\ d.fields[k].res
  /\ Total(d.fields, d.by, Len(d.fields)) = TypeBits(d.back, d.by)

Open(d) == \E k \in Real(d) : OpenField(d.fields[k], Width(d.fields[k], d.by))

(* ------------------------- the rules, as a machine ----------------------- *)
(* The declaration is read from left to right: first the item, the backing   *)
(* and the arguments, then field by field; the state is the names seen, the  *)
(* bits used and the first fault.                                            *)
Start == [seen |-> {}, used |-> 0, bad |-> "none", k |-> 0]
Fault(s, why) == [s EXCEPT !.bad = IF @ = "none" THEN why ELSE @, !.k = @ + 1]

ReadHead(d, s) ==
  CASE d.item # "struct"   -> Fault(s, "item")
    [] ~BackingOk(d.back)  -> Fault(s, "backing")
    [] ~All(d.args, ArgOk) -> Fault(s, "argument")
    [] OTHER -> [s EXCEPT !.k = 1]

ReadField(d, s, f) ==
  LET by == d.by
      room == TypeBits(d.back, by)
  IN
  CASE f.nm \in s.seen                      -> Fault(s, "duplicate name")
    [] f.attr \notin {"none", "list"}       -> Fault(s, "malformed attribute")
    [] f.bk \notin {"no", "ok"}             -> Fault(s, "malformed bits")
    [] ~All(f.args, FieldArgOk)             -> Fault(s, "field argument")
    [] Ignored(f)                           -> [s EXCEPT !.seen = @ \cup {f.nm}, !.k = @ + 1]
    [] ~FieldTypeOk(f.ty)                   -> Fault(s, "field type")
    [] f.res /\ Given(f.args, "access")     -> Fault(s, "reserved with access")
    [] f.ty.t = "custom" /\ f.bk = "no"     -> Fault(s, "custom without bits")
    [] Width(f, by) = 0                     -> Fault(s, "no bits")
    [] f.ty.t # "custom" /\ Width(f, by) > TypeBits(f.ty, by) -> Fault(s, "type too small")
    [] ~DefaultOk(f, Width(f, by))          -> Fault(s, "default")
    [] s.used + Width(f, by) > room         -> Fault(s, "too many bits")
    [] OTHER -> [seen |-> IF f.res THEN s.seen ELSE s.seen \cup {f.nm}, used |-> s.used + Width(f, by), bad |-> s.bad, k |-> s.k + 1]

ReadEnd(d, s) == IF s.used < TypeBits(d.back, d.by) THEN Fault(s, "too few bits") ELSE [s EXCEPT !.k = @ + 1]

Read(d, s) ==
  IF s.k = 0 THEN ReadHead(d, s)
  ELSE IF s.k <= Len(d.fields) THEN ReadField(d, s, d.fields[s.k])
  ELSE ReadEnd(d, s)
Done(d, s) == s.bad # "none" \/ s.k = Len(d.fields) + 2

(* ------------------------------ flag enums ------------------------------- *)
FlagCoherent(d) ==
  /\ d.item = "enum"
  /\ d.back.t = "u"
  /\ All(d.args, FlagArgOk)
  /\ \A k \in DOMAIN d.vars : /\ d.vars[k].shape = "unit"
                              /\ d.vars[k].has
                              /\ ~d.vars[k].neg
                              /\ FitsU(d.vars[k].mag, d.back.w)
  /\ \A j, k \in DOMAIN d.vars : j # k => d.vars[j].nm # d.vars[k].nm /\ d.vars[j].mag # d.vars[k].mag
  /\ Cardinality({k \in DOMAIN d.vars : d.vars[k].base}) <= 1
  /\ Cardinality({k \in DOMAIN d.vars : d.vars[k].dflt}) <= 1
  /\ \E k \in DOMAIN d.vars : d.vars[k].base \/ d.vars[k].dflt

FlagStart == [seen |-> {}, vals |-> {}, base |-> 0, dflt |-> 0, bad |-> "none", k |-> 0]
ReadVariant(d, s, x) ==
  CASE x.shape # "unit"           -> Fault(s, "variant with data")
    [] ~x.has                     -> Fault(s, "no value")
    [] x.neg                      -> Fault(s, "negative value")
    [] ~FitsU(x.mag, d.back.w)    -> Fault(s, "value too large")
    [] x.nm \in s.seen            -> Fault(s, "duplicate name")
    [] x.mag \in s.vals           -> Fault(s, "duplicate value")
    [] x.base /\ s.base = 1       -> Fault(s, "two bases")
    [] x.dflt /\ s.dflt = 1       -> Fault(s, "two defaults")
    [] OTHER -> [seen |-> s.seen \cup {x.nm}, vals |-> s.vals \cup {x.mag}, base |-> IF x.base THEN 1 ELSE s.base,
                 dflt |-> IF x.dflt THEN 1 ELSE s.dflt, bad |-> s.bad, k |-> s.k + 1]
ReadFlag(d, s) ==
  IF s.k = 0 THEN
    CASE d.item # "enum"           -> Fault(s, "item")
      [] d.back.t # "u"            -> Fault(s, "backing")
      [] ~All(d.args, FlagArgOk)   -> Fault(s, "argument")
      [] OTHER                     -> [s EXCEPT !.k = 1]
  ELSE IF s.k <= Len(d.vars) THEN ReadVariant(d, s, d.vars[s.k])
  ELSE IF s.base + s.dflt = 0 THEN Fault(s, "neither base nor default") ELSE [s EXCEPT !.k = @ + 1]
FlagDone(d, s) == s.bad # "none" \/ s.k = Len(d.vars) + 2

(* ------------------------ what an error points at ------------------------ *)
(* The parts of a declaration are its head, 0 (the attribute, the kind of    *)
(* item and its name), and its fields or variants.  Blame is the set of the  *)
(* wrong ones: an error that points anywhere else misleads.                  *)
FieldWrong(d, k) ==
  \/ ~FieldCoherent(d.fields[k], d.by)
  \/ \E j \in DOMAIN d.fields : j # k /\ d.fields[j].nm = d.fields[k].nm /\ ~(d.fields[j].res /\ d.fields[k].res)
Overfull(d, k) == k \in Real(d) /\ Total(d.fields, d.by, k) > TypeBits(d.back, d.by)
(* Defaults that only the compiler can judge; it sees generated code, which  *)
(* is located at the attribute.                                              *)
LeftToCompiler(f, by) == f.dk # "none" /\ (f.dk # "int" \/ ~FitsU(f.mag, 16 * by) \/ f.ty.t \in {"bool", "arr", "custom"})
HeadWrong(d) ==
  \/ d.item # "struct"
  \/ ~BackingOk(d.back)
  \/ ~All(d.args, ArgOk)
  \/ Total(d.fields, d.by, Len(d.fields)) # TypeBits(d.back, d.by)
  \/ \E k \in DOMAIN d.fields : FieldWrong(d, k) /\ LeftToCompiler(d.fields[k], d.by)
Blame(d) == {k \in DOMAIN d.fields : FieldWrong(d, k) \/ Overfull(d, k)} \cup {k \in {0} : HeadWrong(d)}

VariantWrong(d, k) ==
  LET x == d.vars[k] IN
  \/ x.shape # "unit"
  \/ ~x.has
  \/ x.neg
  \/ ~FitsU(x.mag, d.back.w)
  \/ \E j \in DOMAIN d.vars \ {k} :
       d.vars[j].nm = x.nm \/ d.vars[j].mag = x.mag \/ (d.vars[j].base /\ x.base) \/ (d.vars[j].dflt /\ x.dflt)
(* Two variants alike, or a negative value, are for the compiler to report.  *)
FlagHeadWrong(d) ==
  \/ d.item # "enum"
  \/ d.back.t # "u"
  \/ ~All(d.args, FlagArgOk)
  \/ ~\E k \in DOMAIN d.vars : d.vars[k].base \/ d.vars[k].dflt
  \/ \E k \in DOMAIN d.vars : VariantWrong(d, k) /\ d.vars[k].shape = "unit" /\ d.vars[k].has /\ (d.vars[k].neg \/ FitsU(d.vars[k].mag, d.back.w))
FlagBlame(d) == {k \in DOMAIN d.vars : VariantWrong(d, k)} \cup {k \in {0} : FlagHeadWrong(d)}
=============================================================================
