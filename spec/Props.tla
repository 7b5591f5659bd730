------------------------------- MODULE Props --------------------------------
(* The properties P01 .. P17, P19 and P24 of properties.jsonl, stated for    *)
(* one call: P(L, s, e, x) where L is the layout of a declaration, s the     *)
(* state before, e the call and x = [v, ig, r] its effect.  They are stated  *)
(* bit by bit and with arithmetic, independently of how Bitfield.tla defines *)
(* the operations; module MC checks that Bitfield satisfies them.            *)
EXTENDS Bitfield

Min2(a, b) == IF a < b THEN a ELSE b
Fl(L, f) == L.d.fields[f]
Idx(L) == DOMAIN L.off
AllBits(L) == 0 .. (L.size - 1)
OwnBits(L, f) == {i \in AllBits(L) : L.off[f] <= i /\ i < L.off[f] + Fl(L, f).n}
SameBit(a, b, i) == (i \in a) <=> (i \in b)
SameExcept(L, a, b, s) == \A i \in AllBits(L) \ s : SameBit(a, b, i)
Stored(L, v, f) == {i \in 0 .. (Fl(L, f).n - 1) : (L.off[f] + i) \in v}
StoredNum(L, v, f) == NatOf(Stored(L, v, f))
Unchanged(s, x) == x.v = s.v /\ x.ig = s.ig
After(L, x, e) == Effect(L, [v |-> x.v, ig |-> x.ig], e)

Writable(L, i) == \E f \in Idx(L) : i \in OwnBits(L, f) /\ ~Fl(L, f).res /\ Fl(L, f).acc \in {"rw", "wo"}
Visible(L, i) == \E f \in Idx(L) : i \in OwnBits(L, f) /\
                   IF Fl(L, f).res THEN Fl(L, f).att ELSE Fl(L, f).acc \in {"rw", "ro"}

(* What assigning a value to a field must leave in its bits. *)
Assigned(fl, val) ==
  CASE fl.ty = "c" -> {i \in IntoC(fl, val) : i < fl.n}
    [] OTHER       -> {i \in val : i < fl.n}
(* What loading raw bits into a field must leave in its bits. *)
Loaded(fl, raw) ==
  CASE fl.ty = "c" -> {i \in IntoC(fl, FromC(fl, {j \in raw : j < Min2(fl.n, fl.cw)})) : i < fl.n}
    [] OTHER       -> {i \in raw : i < fl.n}
(* Does the value fit, arithmetically? *)
FitsNum(fl, val) ==
  CASE fl.ty = "b" -> TRUE
    [] fl.ty = "i" -> LET m == IntOf(val, fl.w) IN (0 - 2^(fl.n - 1)) <= m /\ m < 2^(fl.n - 1)
    [] fl.ty = "c" -> NatOf(IntoC(fl, val)) < 2^fl.n
    [] OTHER       -> NatOf(val) < 2^fl.n

(* ------------------------------------------------------------------ P01 *)
Tiled(L) ==
  /\ \A f, g \in Idx(L) : f # g => OwnBits(L, f) \cap OwnBits(L, g) = {}
  /\ UNION {OwnBits(L, f) : f \in Idx(L)} = AllBits(L)
  /\ \A f \in Idx(L) : Fl(L, f).n > 0 /\ L.off[f] >= 0 /\ L.off[f] + Fl(L, f).n <= L.size
  /\ IF L.d.order = "lsb"
     THEN L.off[1] = 0 /\ \A f \in Idx(L) \ {1} : L.off[f] = L.off[f - 1] + Fl(L, f - 1).n
     ELSE L.off[1] + Fl(L, 1).n = L.size
          /\ \A f \in Idx(L) \ {1} : L.off[f] + Fl(L, f).n = L.off[f - 1]
P01(L, s, e, x) ==
  /\ Tiled(L)
  /\ e.op = "const" => x.r.s = <<Fl(L, e.f).n, L.off[e.f]>> /\ Unchanged(s, x)
  /\ e.op = "set" => SameExcept(L, s.v, x.v, OwnBits(L, e.f))
  /\ e.op = "get" => \A w \in SUBSET AllBits(L) :
       (\A i \in OwnBits(L, e.f) : SameBit(w, s.v, i))
         => Effect(L, [v |-> w, ig |-> s.ig], e).r = x.r

(* ------------------------------------------------------------------ P02 *)
P02(L, s, e, x) ==
  LET fl == Fl(L, e.f) IN
  /\ e.op = "get" => Unchanged(s, x)
  /\ e.op = "set" =>
       /\ SameExcept(L, s.v, x.v, OwnBits(L, e.f)) /\ x.ig = s.ig
       /\ LET g == After(L, x, [e EXCEPT !.op = "get"]).r.b IN
          CASE fl.ty \in {"u", "a"} -> NatOf(g) = NatOf(e.x) % 2^fl.n
            [] fl.ty = "b"          -> g = e.x
            [] fl.ty = "i"          -> (IntOf(g, fl.w) - IntOf(e.x, fl.w)) % 2^fl.n = 0
            [] fl.ty = "c"          -> NatOf(IntoC(fl, e.x)) < 2^Min2(fl.n, fl.cw) => g = e.x
       (* setting another field does not disturb this one *)
       /\ \A g \in Idx(L) \ {e.f} : HasGetter(Fl(L, g)) => GetF(L, x.v, g) = GetF(L, s.v, g)

(* ------------------------------------------------------------------ P03 *)
P03(L, s, e, x) ==
  LET fl == Fl(L, e.f) IN
  fl.ty = "i" =>
  /\ e.op = "set" => StoredNum(L, x.v, e.f) = IntOf(e.x, fl.w) % 2^fl.n
  /\ e.op = "get" => LET m == IntOf(x.r.b, fl.w) IN
        /\ (0 - 2^(fl.n - 1)) <= m /\ m < 2^(fl.n - 1)
        /\ m % 2^fl.n = StoredNum(L, s.v, e.f)
  /\ e.op = "set" /\ FitsNum(fl, e.x) => After(L, x, [e EXCEPT !.op = "get"]).r.b = e.x

(* ------------------------------------------------------------------ P04 *)
P04(L, s, e, x) ==
  /\ e.op = "cset" =>
       IF FitsNum(Fl(L, e.f), e.x)
       THEN x.r.k = "ok" /\ x.v = Effect(L, s, [e EXCEPT !.op = "set"]).v /\ x.ig = s.ig
       ELSE x.r.k = "err" /\ Unchanged(s, x)
  /\ e.op = "build" =>
       LET bad == {k \in DOMAIN e.st : e.st[k].ck /\ ~FitsNum(Fl(L, e.st[k].f), e.st[k].x)} IN
       IF bad = {} THEN x.r.k = "ok"
       ELSE x.r.k = "err" /\ Unchanged(s, x) /\ x.r.s[1] \in bad /\ \A k \in bad : x.r.s[1] <= k

(* ------------------------------------------------------------------ P05 *)
Range(e) == e.o .. (e.o + e.l - 1)
Inside(L, e) == e.o < L.size /\ e.o + e.l <= L.size
P05(L, s, e, x) ==
  /\ e.op \in {"sbit", "csbit", "srange", "csrange", "write", "inv"} /\ ~e.wd =>
       \A i \in AllBits(L) : ~Writable(L, i) => SameBit(s.v, x.v, i)
  /\ e.op = "sbit" /\ e.o < L.size /\ Writable(L, e.o) => ((e.o \in x.v) <=> (0 \in e.x))
  /\ e.op = "srange" /\ Inside(L, e) =>
       \A i \in Range(e) : Writable(L, i) => ((i \in x.v) <=> ((i - e.o) \in e.x))
  /\ e.op = "csrange" /\ ((Range(e) \ AllBits(L)) # {} \/ \E i \in Range(e) : ~Writable(L, i)) =>
       x.r.k = "err" /\ Unchanged(s, x)
  /\ e.op = "csbit" /\ ~Writable(L, e.o) => x.r.k = "err" /\ Unchanged(s, x)
  /\ e.op \in {"gbit", "cgbit", "grange", "cgrange"} =>
       /\ Unchanged(s, x)
       /\ \A w \in SUBSET AllBits(L) :
            (\A i \in AllBits(L) : Visible(L, i) => SameBit(w, s.v, i))
              => Effect(L, [v |-> w, ig |-> s.ig], e).r = x.r
  /\ e.op = "cgbit" /\ ~Visible(L, e.o) => x.r.k = "err"
  /\ e.op = "cgrange" /\ (\E i \in Range(e) : ~Visible(L, i)) => x.r.k = "err"
  /\ e.op = "grange" /\ Inside(L, e) =>
       \A i \in Range(e) : Visible(L, i) => (((i - e.o) \in x.r.b) <=> (i \in s.v))

(* ------------------------------------------------------------------ P06 *)
AtDefault(L, v, f) == Stored(L, v, f) = Assigned(Fl(L, f), Fl(L, f).df)
AtZero(L, v, f) == Stored(L, v, f) = Loaded(Fl(L, f), {})
IsNew(L, v) == \A f \in Idx(L) : IF Fl(L, f).hd THEN AtDefault(L, v, f) ELSE AtZero(L, v, f)
IsNewWithout(L, v) ==
  \A f \in Idx(L) : IF Fl(L, f).hd /\ Fl(L, f).res THEN AtDefault(L, v, f) ELSE AtZero(L, v, f)
P06(L, s, e, x) ==
  /\ e.op \in {"new", "deft"} => IsNew(L, x.v) /\ x.v \subseteq AllBits(L)
  /\ e.op = "newwo" => IsNewWithout(L, x.v) /\ x.v \subseteq AllBits(L)

(* ------------------------------------------------------------------ P07 *)
LastStep(e, f) == LET q == {k \in DOMAIN e.st : e.st[k].f = f}
                  IN  IF q = {} THEN 0 ELSE CHOOSE k \in q : \A j \in q : j <= k
P07(L, s, e, x) ==
  e.op = "build" /\ x.r.k = "ok" =>
    \A f \in Idx(L) :
      LET k == LastStep(e, f) IN
      IF k # 0 THEN Stored(L, x.v, f) = Assigned(Fl(L, f), e.st[k].x)
      ELSE Stored(L, x.v, f) =
           Stored(L, Effect(L, s, [e EXCEPT !.op = IF e.wd THEN "new" ELSE "newwo"]).v, f)

(* -------------------------------------------------------------- P08, P09 *)
Mirror(L, i) == ((L.d.nb - 1) - (i \div L.d.by)) * L.d.by + (i % L.d.by)
IsMirror(L, a, b) == \A i \in AllBits(L) : (i \in a) <=> (Mirror(L, i) \in b)
IsLoaded(L, v, raw, wd) ==
  \A f \in Idx(L) : IF wd /\ Fl(L, f).hd THEN AtDefault(L, v, f)
                    ELSE Stored(L, v, f) = Loaded(Fl(L, f), Stored(L, raw, f))
Lossless(L) == \A f \in Idx(L) : Fl(L, f).ty = "c" => Fl(L, f).ck # "tab" /\ Fl(L, f).cw >= Fl(L, f).n
Conf(e, conf) == CASE e.en = "le" -> "little" [] e.en = "be" -> "big" [] OTHER -> conf
(* Does this conversion reverse the bytes of the backing value? *)
Reverses(L, e, conf) == IF L.d.kind = "int" THEN Conf(e, conf) = "little" ELSE Conf(e, conf) = "big"
(* The backing value handed to a from conversion, byte order applied. *)
Given(L, e) == LET x == {i \in e.x : i < L.size}
               IN  IF Reverses(L, e, L.d.fe) THEN {Mirror(L, i) : i \in x} ELSE x
PConv(L, s, e, x) ==
  /\ e.op = "from" => IsLoaded(L, x.v, Given(L, e), e.wd)
  /\ e.op = "from" /\ ~e.wd /\ Lossless(L) =>
       (* converting back the same way returns what was put in *)
       LET back == IF Conf(e, L.d.fe) = "little" THEN "le" ELSE "be"
       IN  After(L, x, [e EXCEPT !.op = "into", !.en = back]).r.b = e.x
  /\ e.op = "into" =>
       /\ Unchanged(s, x)
       /\ IF Reverses(L, e, L.d.ie) THEN IsMirror(L, x.r.b, s.v) ELSE x.r.b = s.v
P08(L, s, e, x) == L.d.kind = "int" => PConv(L, s, e, x)
P09(L, s, e, x) ==
  L.d.kind = "arr" =>
  /\ PConv(L, s, e, x)
  /\ e.op = "fslice" =>
       IF e.ck /\ e.l < L.d.nb THEN x.r.k = "err" /\ Unchanged(s, x)
       ELSE x.r.k = (IF e.ck THEN "ok" ELSE "unit") /\ IsLoaded(L, x.v, Given(L, e), e.wd)
  /\ e.op = "islice" =>
       /\ Unchanged(s, x)
       /\ IF e.ck /\ e.l < L.d.nb THEN x.r.k = "err" /\ x.r.b = e.x
          ELSE LET whole == Effect(L, s, [e EXCEPT !.op = "into"]).r.b IN
               \A i \in 0 .. (e.l * L.d.by - 1) :
                 (i \in x.r.b) <=> (IF i < L.size THEN i \in whole ELSE i \in e.x)

(* ------------------------------------------------------------------ P10 *)
P10(L, s, e, x) ==
  LET w == IF Conf(e, L.d.we) = "little" THEN {Mirror(L, i) : i \in e.x} ELSE e.x IN
  /\ e.op = "write" =>
       \A f \in Idx(L) :
         CASE e.wd /\ Fl(L, f).hd    -> AtDefault(L, x.v, f)
           [] HasSetter(Fl(L, f)) /\ ~(e.wd /\ Fl(L, f).hd) -> Stored(L, x.v, f) = Loaded(Fl(L, f), Stored(L, w, f))
           [] OTHER                  -> Stored(L, x.v, f) = Stored(L, s.v, f)
  /\ e.op = "wdef" =>
       \A f \in Idx(L) : IF Fl(L, f).hd THEN AtDefault(L, x.v, f)
                         ELSE Stored(L, x.v, f) = Stored(L, s.v, f)
  /\ e.op \in {"write", "wdef"} => x.v \subseteq AllBits(L) /\ x.ig = s.ig

(* ------------------------------------------------------------------ P11 *)
P11(L, s, e, x) ==
  LET w == e.o < L.size /\ Writable(L, e.o)
      q == e.o < L.size /\ Visible(L, e.o) IN
  /\ e.op \in {"sbit", "csbit"} =>
       /\ SameExcept(L, s.v, x.v, IF w THEN {e.o} ELSE {}) /\ x.v \subseteq AllBits(L)
       /\ w => ((e.o \in x.v) <=> (0 \in e.x))
       /\ e.op = "csbit" => x.r.k = (IF w THEN "ok" ELSE "err")
  /\ e.op = "gbit" => x.r.b = IF q /\ e.o \in s.v THEN {0} ELSE {}
  /\ e.op = "cgbit" => IF q THEN x.r.k = "ok" /\ x.r.b = (IF e.o \in s.v THEN {0} ELSE {})
                       ELSE x.r.k = "err"
  /\ e.op \in {"gbit", "cgbit"} => Unchanged(s, x)

(* ------------------------------------------------------------------ P12 *)
P12(L, s, e, x) ==
  /\ e.op \in {"srange", "csrange"} =>
       /\ x.v \subseteq AllBits(L)
       /\ IF ~Inside(L, e) THEN Unchanged(s, x)
          ELSE LET act == e.op = "srange" \/ \A i \in Range(e) : Writable(L, i) IN
               \A i \in AllBits(L) :
                 IF act /\ i \in Range(e) /\ Writable(L, i) THEN (i \in x.v) <=> ((i - e.o) \in e.x)
                 ELSE SameBit(x.v, s.v, i)
       /\ e.op = "csrange" =>
            ((x.r.k = "ok") <=> (Inside(L, e) /\ \A i \in Range(e) : Writable(L, i)))
  /\ e.op \in {"grange", "cgrange"} =>
       /\ Unchanged(s, x)
       /\ x.r.b = IF Inside(L, e) /\ x.r.k # "err"
                  THEN {i \in 0 .. (e.l - 1) : (e.o + i) \in s.v /\ Visible(L, e.o + i)} ELSE {}
       /\ e.op = "cgrange" =>
            ((x.r.k = "ok") <=> (Inside(L, e) /\ \A i \in Range(e) : Visible(L, i)))

(* ------------------------------------------------------------------ P13 *)
P13(L, s, e, x) ==
  /\ e.op = "clear" => IsNewWithout(L, x.v)
  /\ e.op = "clearwd" => IsNew(L, x.v) /\ x.v = Effect(L, s, [e EXCEPT !.op = "new"]).v
  /\ e.op \in {"clearf", "clearfd"} => SameExcept(L, s.v, x.v, OwnBits(L, e.f))
  /\ e.op = "clearf" => AtZero(L, x.v, e.f)
  /\ e.op = "clearfd" => AtDefault(L, x.v, e.f)
  /\ e.op \in {"clear", "clearwd", "clearf", "clearfd"} => x.ig = s.ig /\ x.v \subseteq AllBits(L)

(* ------------------------------------------------------------------ P14 *)
Flipped(L, v, f) == {i \in 0 .. (Fl(L, f).n - 1) : i \notin Stored(L, v, f)}
NoTab(L) == \A f \in Idx(L) : Fl(L, f).ty # "c"
P14(L, s, e, x) ==
  /\ e.op = "inv" => \A f \in Idx(L) :
       Stored(L, x.v, f) = IF HasSetter(Fl(L, f)) THEN Loaded(Fl(L, f), Flipped(L, s.v, f))
                           ELSE Stored(L, s.v, f)
  /\ e.op = "invf" => /\ SameExcept(L, s.v, x.v, OwnBits(L, e.f))
                      /\ Stored(L, x.v, e.f) = Loaded(Fl(L, e.f), Flipped(L, s.v, e.f))
  /\ e.op = "ginv" => /\ Unchanged(s, x)
                      /\ Fl(L, e.f).ty # "c" => x.r.b = Flipped(L, s.v, e.f)
  /\ e.op \in {"inv", "invf"} /\ NoTab(L) => After(L, x, e).v = s.v

(* ------------------------------------------------------------------ P15 *)
P15(L, s, e, x) ==
  LET fl == Fl(L, e.f) IN
  /\ e.op \in {"set", "get", "ginv", "cset"} /\ fl.ty = "a" =>
       /\ e.op = "set" => \A i \in 0 .. (fl.n - 1) : ((L.off[e.f] + i) \in x.v) <=> (i \in e.x)
       /\ e.op = "get" => \A i \in 0 .. (fl.w - 1) : (i \in x.r.b) <=> (i < fl.n /\ (L.off[e.f] + i) \in s.v)
       /\ e.op = "ginv" => \A i \in 0 .. (fl.w - 1) : (i \in x.r.b) <=> (i < fl.n /\ (L.off[e.f] + i) \notin s.v)
       /\ e.op = "cset" => ((x.r.k = "ok") <=> \A i \in e.x : i < fl.n)
  /\ \A f \in Idx(L) : Fl(L, f).ty = "a" =>
       /\ e.op \in {"new", "deft", "clearwd"} /\ Fl(L, f).hd =>
            \A i \in 0 .. (Fl(L, f).n - 1) : ((L.off[f] + i) \in x.v) <=> (i \in Fl(L, f).df)
       /\ e.op = "inv" /\ HasSetter(Fl(L, f)) =>
            \A i \in OwnBits(L, f) : ~SameBit(x.v, s.v, i)

(* ------------------------------------------------------------------ P16 *)
(* The same declaration with the other kind of backing. *)
Twin(L) == LayoutOf([L.d EXCEPT !.kind = IF @ = "int" THEN "arr" ELSE "int"])
Conversion(op) == op \in {"from", "into", "fslice", "islice"}
Other(en) == IF en = "le" THEN "be" ELSE "le"
P16(L, s, e, x) ==
  LET T == Twin(L) IN
  /\ T.off = L.off /\ T.size = L.size
  /\ ~Conversion(e.op) /\ e.op # "debug" => Effect(T, s, e) = x
  /\ e.op \in {"from", "into"} /\ e.en # "def" =>
       Effect(T, s, [e EXCEPT !.en = Other(e.en)]) = x
  /\ e.op = "debug" => \A k \in DOMAIN x.r.s : Effect(T, s, e).r.s[k].n = x.r.s[k].n
                                             /\ Effect(T, s, e).r.s[k].b = x.r.s[k].b

(* ------------------------------------------------------------------ P17 *)
P17(L, s, e, x) ==
  LET fl == Fl(L, e.f)
      low(b) == {i \in b : i < fl.n} IN
  /\ e.op \in {"set", "cset", "get", "ginv", "clearf", "clearfd", "invf"} /\ fl.ty = "c" =>
       /\ e.op = "set" => Stored(L, x.v, e.f) = low(IntoC(fl, e.x)) /\ SameExcept(L, s.v, x.v, OwnBits(L, e.f))
       /\ e.op = "get" => x.r.b = FromC(fl, {i \in Stored(L, s.v, e.f) : i < fl.cw})
       /\ e.op = "ginv" => x.r.b = FromC(fl, {i \in Flipped(L, s.v, e.f) : i < fl.cw})
       /\ e.op = "clearf" => Stored(L, x.v, e.f) = low(IntoC(fl, FromC(fl, {})))
       /\ e.op = "clearfd" => Stored(L, x.v, e.f) = low(IntoC(fl, fl.df))
       /\ e.op = "invf" => Stored(L, x.v, e.f) = low(IntoC(fl, FromC(fl, {i \in Flipped(L, s.v, e.f) : i < fl.cw})))
       /\ e.op = "cset" /\ x.r.k = "ok" => GetF(L, x.v, e.f) = e.x \/ fl.cw < fl.n
  /\ e.op = "from" => IsLoaded(L, x.v, Given(L, e), e.wd)
  /\ e.op \in {"new", "deft"} => IsNew(L, x.v)

(* ------------------------------------------------------------------ P19 *)
P19(L, s, e, x) ==
  e.op = "debug" =>
    /\ Unchanged(s, x)
    /\ Len(x.r.s) = Len(L.d.fields) + 1
    /\ x.r.s[1].n = L.d.nm
    /\ \A f \in Idx(L) : x.r.s[f + 1].n = Fl(L, f).nm /\ NatOf(x.r.s[f + 1].b) = StoredNum(L, s.v, f)

(* ------------------------------------------------------------------ P24 *)
Constructs(e, x) == \/ e.op \in {"new", "newwo", "deft", "from"}
                    \/ e.op \in {"build", "fslice"} /\ x.r.k # "err"
P24(L, s, e, x) ==
  /\ Constructs(e, x) => \A i \in DOMAIN x.ig : x.ig[i] = 0
  /\ ~Constructs(e, x) /\ e.op # "igset" => x.ig = s.ig
  /\ e.op = "igset" => x.v = s.v /\ x.ig[e.f] = e.l /\ \A i \in DOMAIN s.ig \ {e.f} : x.ig[i] = s.ig[i]
  (* the bits behave as if the ignored fields were not there *)
  /\ e.op # "igset" => LET M == LayoutOf([L.d EXCEPT !.ig = 0])
                           y == Effect(M, [v |-> s.v, ig |-> <<>>], e)
                       IN  y.v = x.v /\ y.r = x.r

Holds(p, L, s, e, x) ==
  CASE p = "P01" -> P01(L, s, e, x) [] p = "P02" -> P02(L, s, e, x) [] p = "P03" -> P03(L, s, e, x)
    [] p = "P04" -> P04(L, s, e, x) [] p = "P05" -> P05(L, s, e, x) [] p = "P06" -> P06(L, s, e, x)
    [] p = "P07" -> P07(L, s, e, x) [] p = "P08" -> P08(L, s, e, x) [] p = "P09" -> P09(L, s, e, x)
    [] p = "P10" -> P10(L, s, e, x) [] p = "P11" -> P11(L, s, e, x) [] p = "P12" -> P12(L, s, e, x)
    [] p = "P13" -> P13(L, s, e, x) [] p = "P14" -> P14(L, s, e, x) [] p = "P15" -> P15(L, s, e, x)
    [] p = "P16" -> P16(L, s, e, x) [] p = "P17" -> P17(L, s, e, x) [] p = "P19" -> P19(L, s, e, x)
    [] p = "P24" -> P24(L, s, e, x)
=============================================================================
