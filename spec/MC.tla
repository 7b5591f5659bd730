--------------------------------- MODULE MC ---------------------------------
(* Exhaustive check of one property of Props on small bitfields: bytes of    *)
(* By bits, sizes given in bytes, every tiling into at most MaxFields        *)
(* fields, one field of every type, access and default while the others are  *)
(* taken from a short list, both bit orders and backings, every backing      *)
(* value, every call with every argument.                                    *)
EXTENDS Props, TLC

CONSTANTS Prop, By, Sizes, MaxFields,
          Deep      \* FALSE: fewer types, defaults and arguments, for the quick check

VARIABLES L, v, ig, call, res
vars == <<L, v, ig, call, res>>
View == <<L, v, ig>>

Tilings(s) == {q \in UNION {[1 .. k -> 1 .. s] : k \in 1 .. MaxFields} :
                 LET sum[k \in 0 .. Len(q)] == IF k = 0 THEN 0 ELSE q[k] + sum[k - 1] IN sum[Len(q)] = s}

Plain(n) == [nm |-> "f", ty |-> "u", n |-> n, w |-> n, acc |-> "rw", res |-> FALSE, att |-> TRUE, hd |-> FALSE,
             df |-> {}, ck |-> "no", cw |-> 0, vals |-> {}, fb |-> {}, cm |-> 0, cfe |-> "big", cie |-> "big", cb |-> By]

Ceil(n) == (n + By - 1) \div By
Cust(n, ck, cw, vals, fb, en) ==
  [Plain(n) EXCEPT !.ty = "c", !.w = cw, !.ck = ck, !.cw = cw, !.vals = vals, !.fb = fb, !.cfe = en, !.cie = en]
Types(n) ==
  LET ints == {[Plain(n) EXCEPT !.ty = t, !.w = w] : t \in {"u", "i"}, w \in IF Deep THEN {n, n + 1} ELSE {n + 1}}
      bool == IF n = 1 THEN {[Plain(n) EXCEPT !.ty = "b", !.w = 1]} ELSE {}
      arrs == {[Plain(n) EXCEPT !.ty = "a", !.w = w] : w \in {By * Ceil(n)} \cup (IF Deep \/ Prop = "P15" THEN {By * Ceil(n) + By} ELSE {})}
      cust == {Cust(n, k, w, {}, {}, "big") : k \in {"id", "inv"},
                 w \in {n + 1} \cup (IF Deep \/ Prop = "P17" THEN {n} \cup (IF n > 1 THEN {n - 1} ELSE {}) ELSE {})}
              \cup {Cust(n, "tab", n + 1, {{}, {0}}, {}, "big"), Cust(n, "tab", n, {{n - 1}}, {n - 1}, "big")}
              \cup {[Cust(n, "sat", n + 1, {}, {n}, "big") EXCEPT !.cm = n]}
              \cup {Cust(n, "id", 2 * By, {}, {}, "little")}
  IN  CASE Prop = "P03" -> {t \in ints : t.ty = "i"}
        [] Prop = "P15" -> arrs
        [] Prop = "P17" -> cust
        [] ~Deep /\ Prop \in {"P05", "P11", "P12"} -> {t \in cust : t.ck = "tab"} \cup {Plain(n)}
        [] ~Deep /\ Prop \in {"P07", "P08", "P09", "P10", "P16", "P24"} ->
             {t \in ints : t.ty = "i"} \cup arrs \cup {t \in cust : t.ck # "id"}
        [] OTHER -> ints \cup bool \cup arrs \cup cust

WithDefaults(fl) ==
  {fl} \cup {[fl EXCEPT !.hd = TRUE, !.df = x] :
               x \in IF fl.ck = "tab" THEN fl.vals ELSE {0 .. (fl.w - 1)} \cup (IF Deep THEN {{0}, {fl.w - 1}} ELSE {})}
WithAccess(fl) ==
  {[fl EXCEPT !.acc = a] : a \in {"rw", "ro", "wo", "na"}}
  \cup {[fl EXCEPT !.res = TRUE, !.att = b] : b \in BOOLEAN}

Focus(n) ==
  LET acc == CASE Prop \in {"P01", "P02", "P03"} -> {f \in UNION {WithAccess(t) : t \in Types(n)} : HasBuilder(f)}
               [] Prop = "P24" -> {[t EXCEPT !.acc = a] : t \in Types(n), a \in {"rw", "ro"}}
               [] ~Deep /\ Prop \in {"P08", "P09", "P16"} -> {[t EXCEPT !.acc = a] : t \in Types(n), a \in {"rw", "na"}}
               [] ~Deep /\ Prop = "P17" -> {[t EXCEPT !.acc = a] : t \in Types(n), a \in {"rw", "ro"}}
               [] OTHER -> UNION {WithAccess(t) : t \in Types(n)}
  IN  IF Prop \in {"P04", "P06", "P07", "P08", "P09", "P10", "P13", "P15", "P16", "P17"}
      THEN UNION {WithDefaults(f) : f \in acc} ELSE acc

(* Only conversions and Debug look at the kind of backing (P16). *)
Kinds == CASE Prop = "P08" -> {"int"} [] Prop = "P09" -> {"arr"}
           [] ~Deep /\ Prop \notin {"P15", "P19"} -> {"int"} [] OTHER -> {"int", "arr"}
Endians == IF Prop \in {"P08", "P09", "P10"} \/ (Deep /\ Prop = "P16") THEN {"big", "little"} ELSE {"big"}

DeclInit ==
  \E nb \in Sizes, order \in {"lsb", "msb"}, kind \in Kinds, fe \in Endians :
  \E ie \in IF Deep \/ Prop = "P08" THEN Endians ELSE {fe} :
  \E tl \in Tilings(nb * By) :
  \E pos \in DOMAIN tl :
  \E fo \in Focus(tl[pos]) :
  \E ot \in [DOMAIN tl -> IF Deep THEN 1 .. 4 ELSE IF Prop \in {"P05", "P11", "P12", "P13"} THEN 1 .. 3 ELSE 1 .. 2] :
    /\ ot[pos] = 1
    /\ \E os \in {[k \in DOMAIN tl |-> IF k = pos THEN fo ELSE
                     LET o == ot[k] IN
                     CASE o = 1 -> Plain(tl[k])
                       [] o = 2 -> [Plain(tl[k]) EXCEPT !.acc = "ro", !.hd = TRUE, !.df = 0 .. (tl[k] - 1)]
                       [] o = 3 -> [Plain(tl[k]) EXCEPT !.res = TRUE, !.att = FALSE]
                       [] o = 4 -> [Plain(tl[k]) EXCEPT !.acc = "wo", !.ty = "i"]]} :
         L = LayoutOf([nm |-> "S", kind |-> kind, nb |-> nb, by |-> By, order |-> order,
                       fe |-> fe, ie |-> ie, we |-> ie, fields |-> os, ig |-> IF Prop = "P24" THEN 1 ELSE 0])

NoCall == [op |-> "none", f |-> 1, x |-> {}, o |-> 0, l |-> 0, en |-> "def", wd |-> FALSE, ck |-> FALSE, st |-> <<>>]

SomeRaw == IF Deep THEN {{}, AllBits(L), {0}, {i \in AllBits(L) : i % 2 = 1}} ELSE {AllBits(L), {i \in AllBits(L) : i % 2 = 1}}

Init == /\ DeclInit
        /\ v \in IF Deep \/ Prop \in {"P01", "P02", "P03", "P14", "P19"} THEN SUBSET AllBits(L) ELSE SomeRaw
        /\ ig = [k \in 1 .. L.d.ig |-> 0]
        /\ call = NoCall /\ res = Unit

FieldVals(f) == LET fl == L.d.fields[f] IN IF fl.ck = "tab" THEN fl.vals ELSE SUBSET (0 .. (fl.w - 1))
SomeVals(f) == LET fl == L.d.fields[f]
               IN  IF fl.ck = "tab" THEN fl.vals ELSE IF ~Deep THEN {{0}, 0 .. (fl.w - 1)} ELSE {{}, {0}, 0 .. (fl.w - 1), 0 .. (fl.n - 1) \cap 0 .. (fl.w - 1), {fl.w - 1}}
Raw == IF Deep THEN SUBSET AllBits(L) ELSE SomeRaw \cup {{0}}
C(op) == [NoCall EXCEPT !.op = op]
OnFields(op) == {[C(op) EXCEPT !.f = f] : f \in DOMAIN L.off}
Sets(op) == UNION {{[C(op) EXCEPT !.f = f, !.x = x] : x \in FieldVals(f)} : f \in {g \in DOMAIN L.off : HasSetter(L.d.fields[g])}}
Ens == {"def", "le", "be"}
Wd(cs) == {[c EXCEPT !.wd = b] : c \in cs, b \in BOOLEAN}
Froms(vals) == Wd({[C("from") EXCEPT !.en = n, !.x = x] : n \in Ens, x \in vals})
Writes(vals) == Wd({[C("write") EXCEPT !.en = n, !.x = x] : n \in Ens, x \in vals})
Intos == {[C("into") EXCEPT !.en = n] : n \in Ens}
FSlices == Wd({[C("fslice") EXCEPT !.en = n, !.ck = k, !.l = l, !.x = x] : n \in Ens, k \in BOOLEAN,
               l \in {L.d.nb - 1}, x \in SUBSET (0 .. ((L.d.nb - 1) * By - 1))}
              \cup {[C("fslice") EXCEPT !.en = n, !.ck = k, !.l = l, !.x = x] : n \in Ens, k \in BOOLEAN,
               l \in {L.d.nb + 1}, x \in {y \cup {L.size} : y \in SomeRaw}}
              \cup {[C("fslice") EXCEPT !.en = n, !.ck = k, !.l = L.d.nb, !.x = x] : n \in Ens, k \in BOOLEAN, x \in Raw})
ISlices == {[C("islice") EXCEPT !.en = n, !.ck = k, !.l = l, !.x = x] : n \in Ens, k \in BOOLEAN,
            l \in {L.d.nb - 1, L.d.nb, L.d.nb + 1}, x \in {{}, {0}}}
BitCalls == {[C(op) EXCEPT !.o = o, !.x = x] : op \in {"sbit", "csbit"}, o \in 0 .. (L.size + 1), x \in {{}, {0}}}
            \cup {[C(op) EXCEPT !.o = o] : op \in {"gbit", "cgbit"}, o \in 0 .. (L.size + 1)}
Top == IF Deep THEN L.size + 1 ELSE L.size
RangeCalls(vals) ==
  {[C(op) EXCEPT !.o = o, !.l = l, !.x = x] : op \in {"srange", "csrange"}, o \in 0 .. Top, l \in 0 .. Top, x \in vals}
  \cup {[C(op) EXCEPT !.o = o, !.l = l] : op \in {"grange", "cgrange"}, o \in 0 .. Top, l \in 0 .. Top}
Steps == UNION {{[f |-> f, ck |-> k, x |-> x] : k \in BOOLEAN, x \in SomeVals(f)} :
                f \in {g \in DOMAIN L.off : HasBuilder(L.d.fields[g])}}
Builds == Wd({[C("build") EXCEPT !.st = st] : st \in {<<>>} \cup {<<a>> : a \in Steps} \cup {<<a, b>> : a \in Steps, b \in Steps}})
Builds1 == Wd({[C("build") EXCEPT !.st = st] : st \in {<<>>} \cup {<<a>> : a \in Steps}})
News == {C("new"), C("newwo"), C("deft")}
Clears == {C("clear"), C("clearwd")} \cup OnFields("clearf") \cup OnFields("clearfd")
Invs == {C("inv")} \cup OnFields("invf") \cup OnFields("ginv")

Calls ==
  CASE Prop = "P01" -> OnFields("const") \cup OnFields("get") \cup Sets("set")
    [] Prop \in {"P02", "P03"} -> OnFields("get") \cup Sets("set")
    [] Prop = "P04" -> Sets("cset") \cup Builds1
    [] Prop = "P05" -> BitCalls \cup RangeCalls(IF Deep THEN SomeRaw ELSE {{0}}) \cup {C("inv")} \cup {[c EXCEPT !.wd = FALSE] : c \in Writes(SomeRaw)}
    [] Prop = "P06" -> News
    [] Prop = "P07" -> Builds
    [] Prop = "P08" -> Froms(Raw) \cup Intos
    [] Prop = "P09" -> Froms(SomeRaw) \cup Intos \cup FSlices \cup ISlices
    [] Prop = "P10" -> Writes(Raw) \cup {C("wdef")}
    [] Prop = "P11" -> BitCalls
    [] Prop = "P12" -> RangeCalls(Raw)
    [] Prop = "P13" -> Clears
    [] Prop = "P14" -> Invs
    [] Prop = "P15" -> Sets("set") \cup Sets("cset") \cup OnFields("get") \cup Invs \cup News \cup Clears
    [] Prop = "P16" -> Sets("set") \cup OnFields("get") \cup BitCalls \cup RangeCalls({{}, AllBits(L)}) \cup Invs \cup Clears
                       \cup News \cup Writes(SomeRaw) \cup Froms(SomeRaw) \cup Intos \cup {C("debug")}
    [] Prop = "P17" -> Sets("set") \cup Sets("cset") \cup OnFields("get") \cup Invs \cup News \cup Clears \cup Froms(SomeRaw) \cup Writes(SomeRaw)
    [] Prop = "P19" -> {C("debug")}
    [] Prop = "P24" -> Sets("set") \cup BitCalls \cup Invs \cup Clears \cup News \cup Froms(SomeRaw) \cup Writes(SomeRaw)
                       \cup {C("wdef"), C("debug")} \cup Builds1 \cup {[C("igset") EXCEPT !.f = 1, !.l = n] : n \in 0 .. 2}

(* For the properties of construction the state before does not matter, so   *)
(* one is enough.                                                            *)
Stateless == Prop \in {"P06", "P07"}

Next == \E e \in Calls :
          /\ Callable(L, e)
          /\ LET x == Effect(L, [v |-> v, ig |-> ig], e)
             IN  v' = x.v /\ ig' = x.ig /\ res' = x.r
          /\ call' = e
          /\ UNCHANGED L

InitC == Init /\ (Stateless => v = AllBits(L))
Spec == InitC /\ [][Next]_vars

(* The property, for every step. *)
Step == Holds(Prop, L, [v |-> v, ig |-> ig], call', [v |-> v', ig |-> ig', r |-> res'])
Property == [][Step]_vars
TypeOK == v \subseteq AllBits(L) /\ Tiled(L)
=============================================================================
