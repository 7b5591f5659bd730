------------------------------ MODULE Bitfield ------------------------------
(* The operations that the bitfield attribute generates, as functions from   *)
(* a state and a call to the next state and the result.                      *)
(*                                                                           *)
(* A state is [v |-> set of one-bits of the backing value,                   *)
(*             ig |-> sequence with the values of the ignored fields].       *)
(* For array backings bit i of v is bit i%8 of byte i/8.                     *)
(* A call e is a record with e.op and the arguments that operation uses:     *)
(*   f   field index            x   a bit vector argument                    *)
(*   o,l offset and length      en  "def", "le" or "be"                      *)
(*   wd  with defaults          ck  checked variant                          *)
(*   st  steps of a builder chain                                            *)
(* A result is [k |-> kind, b |-> bit vector, s |-> sequence].               *)
EXTENDS Layout

Ret(k, b, s) == [k |-> k, b |-> b, s |-> s]
Unit == Ret("unit", {}, <<>>)
Ok   == Ret("ok", {}, <<>>)
Err  == Ret("err", {}, <<>>)
Val(b) == Ret("val", b, <<>>)
OkVal(b) == Ret("ok", b, <<>>)

(* A backing value from the bits of each field. *)
Compose(L, g(_)) == UNION {Shl(g(f), L.off[f]) : f \in DOMAIN L.off}

FieldBits(L, v, f) == Slice(v, L.off[f], L.d.fields[f].n)
PutField(L, v, f, x) == Put(v, L.off[f], L.d.fields[f].n, x)

GetF(L, v, f) == Dec(L.d.fields[f], FieldBits(L, v, f))
SetF(L, v, f, val) == PutField(L, v, f, Enc(L.d.fields[f], val))
LoadF(L, v, f, x) == PutField(L, v, f, Load(L.d.fields[f], x))

ZeroBits(L, f) == Load(L.d.fields[f], {})
DefBits(L, f) == Enc(L.d.fields[f], L.d.fields[f].df)

NewV(L) ==
  Compose(L, LAMBDA f : IF L.d.fields[f].hd THEN DefBits(L, f) ELSE ZeroBits(L, f))
NewWithoutDefaultsV(L) ==
  Compose(L, LAMBDA f : IF L.d.fields[f].hd /\ L.d.fields[f].res
                        THEN DefBits(L, f) ELSE ZeroBits(L, f))
LoadAllV(L, x) ==
  Compose(L, LAMBDA f : Load(L.d.fields[f], FieldBits(L, x, f)))
DefaultsV(L, v) ==
  Compose(L, LAMBDA f : IF L.d.fields[f].hd THEN DefBits(L, f) ELSE FieldBits(L, v, f))
WriteV(L, v, x) ==
  Compose(L, LAMBDA f : IF HasSetter(L.d.fields[f])
                        THEN Load(L.d.fields[f], FieldBits(L, x, f))
                        ELSE FieldBits(L, v, f))
InvertV(L, v) ==
  Compose(L, LAMBDA f : IF HasSetter(L.d.fields[f])
                        THEN Load(L.d.fields[f], Compl(FieldBits(L, v, f), L.d.fields[f].n))
                        ELSE FieldBits(L, v, f))

(* ------------------------------ endianness ------------------------------ *)
Endian(en, conf) == CASE en = "le" -> "little" [] en = "be" -> "big" [] OTHER -> conf
Rev(L, x) == RevBytes(x, L.d.nb, L.d.by)
(* Conversions.  An integer is converted by swapping its bytes for little.   *)
(* The bytes of an array bitfield are kept least significant first, so it is *)
(* big that reverses them.                                                   *)
Conv(L, en, conf, x) ==
  LET little == Endian(en, conf) = "little"
  IN  IF L.d.kind = "int" THEN (IF little THEN Rev(L, x) ELSE x)
                          ELSE (IF little THEN x ELSE Rev(L, x))
(* Whole-value writes swap for little on both backings.                      *)
WConv(L, en, x) == IF Endian(en, L.d.we) = "little" THEN Rev(L, x) ELSE x

FromV(L, e) ==
  LET v == LoadAllV(L, Conv(L, e.en, L.d.fe, Trunc(e.x, L.size)))
  IN  IF e.wd THEN DefaultsV(L, v) ELSE v

(* ---------------------------- bits and ranges ---------------------------- *)
InRange(L, o, l) == o < L.size /\ o + l <= L.size
RangeBits(o, l) == o .. (o + l - 1)
SetRangeV(L, v, o, l, x) ==
  LET w == RangeBits(o, l) \cap L.wr
  IN  (v \ w) \cup (Shl(Trunc(x, l), o) \cap w)

(* ------------------------------- builder --------------------------------- *)
(* A chain of builder steps: [f, ck, x].  The result is the built value, or  *)
(* the number of the checked step that failed.                               *)
RECURSIVE Chain(_, _, _, _)
Chain(L, v, st, k) ==
  IF k > Len(st) THEN [v |-> v, fail |-> 0]
  ELSE LET s == st[k] IN
       IF s.ck /\ ~Fits(L.d.fields[s.f], s.x) THEN [v |-> v, fail |-> k]
       ELSE Chain(L, SetF(L, v, s.f, s.x), st, k + 1)

IgZero(L) == [i \in 1 .. L.d.ig |-> 0]

(* Debug output: the name of the bitfield, then every field in declaration   *)
(* order with its bits; l is the number of bytes shown for an array field of *)
(* an array bitfield, 0 for a number.                                        *)
DebugOf(L, v) ==
  <<[n |-> L.d.nm, b |-> {}, l |-> 0]>> \o
  [f \in DOMAIN L.off |->
     [n |-> L.d.fields[f].nm, b |-> FieldBits(L, v, f),
      l |-> IF L.d.fields[f].ty = "a" /\ L.d.kind = "arr" THEN L.d.fields[f].w \div L.d.by ELSE 0]]

(* ------------------------------ operations ------------------------------- *)
(* The effect of call e in state s: the next state and the result. *)
Effect(L, s, e) ==
  LET v == s.v
      Same(r) == [v |-> v, ig |-> s.ig, r |-> r]
      To(nv, r) == [v |-> nv, ig |-> s.ig, r |-> r]
      Made(nv, r) == [v |-> nv, ig |-> IgZero(L), r |-> r]
  IN
  CASE
     (* the harness stores a raw backing value *)
     e.op = "inject"   -> To(Trunc(e.x, L.size), Unit)
  [] e.op = "const"    -> Same(Ret("val", {}, <<L.d.fields[e.f].n, L.off[e.f]>>))
     (* field accessors *)
  [] e.op = "get"      -> Same(Val(GetF(L, v, e.f)))
  [] e.op = "set"      -> To(SetF(L, v, e.f, e.x), Unit)
  [] e.op = "cset"     -> IF Fits(L.d.fields[e.f], e.x)
                          THEN To(SetF(L, v, e.f, e.x), Ok) ELSE Same(Err)
     (* construction *)
  [] e.op = "new"      -> Made(NewV(L), Unit)
  [] e.op = "deft"     -> Made(NewV(L), Unit)
  [] e.op = "newwo"    -> Made(NewWithoutDefaultsV(L), Unit)
  [] e.op = "build"    -> LET c == Chain(L, IF e.wd THEN NewV(L) ELSE NewWithoutDefaultsV(L), e.st, 1)
                          IN  IF c.fail = 0 THEN Made(c.v, Ret("ok", {}, <<0>>))
                              ELSE Same(Ret("err", {}, <<c.fail>>))
     (* conversions of the whole value *)
  [] e.op = "from"     -> Made(FromV(L, e), Unit)
  [] e.op = "fslice"   -> IF e.ck /\ e.l < L.d.nb THEN Same(Err)
                          ELSE Made(FromV(L, e), IF e.ck THEN Ok ELSE Unit)
  [] e.op = "into"     -> Same(Val(Conv(L, e.en, L.d.ie, v)))
  [] e.op = "islice"   -> IF e.ck /\ e.l < L.d.nb THEN Same(Ret("err", e.x, <<>>))
                          ELSE LET m == IF e.l < L.d.nb THEN e.l ELSE L.d.nb
                               IN  Same(Ret(IF e.ck THEN "ok" ELSE "unit",
                                            Put(e.x, 0, m * L.d.by, Conv(L, e.en, L.d.ie, v)), <<>>))
     (* whole-value writes *)
  [] e.op = "write"    -> LET w == WriteV(L, v, WConv(L, e.en, e.x))
                          IN  To(IF e.wd THEN DefaultsV(L, w) ELSE w, Unit)
  [] e.op = "wdef"     -> To(DefaultsV(L, v), Unit)
     (* single bits *)
  [] e.op = "sbit"     -> To(IF e.o \in L.wr THEN Put(v, e.o, 1, e.x) ELSE v, Unit)
  [] e.op = "csbit"    -> IF e.o \in L.wr THEN To(Put(v, e.o, 1, e.x), Ok) ELSE Same(Err)
  [] e.op = "gbit"     -> Same(Val(IF e.o \in L.rd \cap v THEN {0} ELSE {}))
  [] e.op = "cgbit"    -> Same(IF e.o \in L.rd THEN OkVal(Slice(v, e.o, 1)) ELSE Err)
     (* ranges of bits *)
  [] e.op = "srange"   -> To(IF InRange(L, e.o, e.l) THEN SetRangeV(L, v, e.o, e.l, e.x) ELSE v, Unit)
  [] e.op = "csrange"  -> IF InRange(L, e.o, e.l) /\ RangeBits(e.o, e.l) \subseteq L.wr
                          THEN To(SetRangeV(L, v, e.o, e.l, e.x), Ok) ELSE Same(Err)
  [] e.op = "grange"   -> Same(Val(IF InRange(L, e.o, e.l) THEN Slice(v \cap L.rd, e.o, e.l) ELSE {}))
  [] e.op = "cgrange"  -> Same(IF InRange(L, e.o, e.l) /\ RangeBits(e.o, e.l) \subseteq L.rd
                               THEN OkVal(Slice(v, e.o, e.l)) ELSE Err)
     (* clearing *)
  [] e.op = "clear"    -> To(NewWithoutDefaultsV(L), Unit)
  [] e.op = "clearwd"  -> To(NewV(L), Unit)
  [] e.op = "clearf"   -> To(LoadF(L, v, e.f, {}), Unit)
  [] e.op = "clearfd"  -> To(SetF(L, v, e.f, L.d.fields[e.f].df), Unit)
     (* inverting *)
  [] e.op = "inv"      -> To(InvertV(L, v), Unit)
  [] e.op = "invf"     -> To(LoadF(L, v, e.f, Compl(FieldBits(L, v, e.f), L.d.fields[e.f].n)), Unit)
  [] e.op = "ginv"     -> LET fl == L.d.fields[e.f]
                              c == Compl(FieldBits(L, v, e.f), fl.n)
                          IN  Same(Val(IF fl.ty = "c" THEN FromC(fl, Trunc(c, fl.cw)) ELSE c))
     (* formatting *)
  [] e.op = "debug"    -> Same(Ret("val", {}, DebugOf(L, v)))
     (* ignored fields *)
  [] e.op = "igset"    -> [v |-> v, ig |-> [s.ig EXCEPT ![e.f] = e.l], r |-> Unit]

(* Is call e part of the interface that d generates at all? *)
Callable(L, e) ==
  LET fl == L.d.fields[e.f] IN
  CASE e.op \in {"get", "ginv"} -> HasGetter(fl)
    [] e.op \in {"set", "cset", "clearf", "invf"} -> HasSetter(fl)
    [] e.op = "clearfd" -> HasSetter(fl) /\ fl.hd
    [] e.op = "const" -> HasGetter(fl) \/ HasSetter(fl)
    [] OTHER -> TRUE
=============================================================================
