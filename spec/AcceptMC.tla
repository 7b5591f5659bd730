------------------------------ MODULE AcceptMC ------------------------------
(* Every small declaration: reading it step by step accepts exactly the      *)
(* coherent ones, and what is accepted is a tiling whose literal defaults    *)
(* read back as the declared numbers.                                        *)
EXTENDS Accept, TLC

L == INSTANCE Layout

CONSTANTS Prop, By, MaxFields, Deep

VARIABLES d, s
vars == <<d, s>>

T(t, w) == [t |-> t, w |-> w, et |-> "", len |-> 0]
A(et, len) == [t |-> "arr", w |-> 0, et |-> et, len |-> len]
Backings == {T("u", By), T("u", 2 * By), A("u8", 1), A("u8", 2)}
BadBackings == {A("u8", 0), A("u8", -1), A("u16", 1), T("i", By), T("bool", 1), T("float", By), T("size", By), T("custom", 0), T("odd", 0), T("none", 0)}
FieldTypes == {T("u", By), T("u", 2 * By), T("i", By), T("i", 2 * By), T("bool", 1), T("custom", 0), A("u8", 1), A("u8", 2),
               A("u8", 0), A("u16", 1), A("u8", -1), T("float", By), T("size", By), T("odd", 0)}
Arg(k, v) == [k |-> k, v |-> v, shape |-> "kv"]
BadArg == [k |-> "access", v |-> "rw", shape |-> "noeq"]

Base(nm, n) == [nm |-> nm, res |-> FALSE, ty |-> T("u", 2 * By), attr |-> "list", bk |-> "ok", n |-> n, args |-> <<>>,
                dk |-> "none", neg |-> FALSE, mag |-> {}]
Nums == SUBSET (0 .. (IF Deep THEN 2 * By ELSE By))
Focus(nm) ==
  {[Base(nm, n) EXCEPT !.ty = ty, !.bk = bk] : ty \in FieldTypes, n \in 0 .. (2 * By + 1), bk \in {"ok", "no", "bad"}}
  \cup {[Base(nm, n) EXCEPT !.ty = ty, !.dk = "int", !.neg = g, !.mag = m, !.args = <<Arg("default", "")>>] :
          ty \in {T("u", By), T("i", By), T("i", 2 * By), T("bool", 1), A("u8", 2), T("custom", 0)}, n \in 1 .. (2 * By), g \in BOOLEAN, m \in Nums}
  \cup {[Base(nm, n) EXCEPT !.dk = k, !.args = <<Arg("default", "")>>, !.ty = ty] : n \in 1 .. By, k \in {"path", "bool", "float", "bad"}, ty \in {T("u", By), T("bool", 1), T("custom", 0)}}
  \cup {[Base(nm, n) EXCEPT !.args = a] : n \in {0, 1, By},
          a \in {<<Arg("access", "ro")>>, <<Arg("access", "xx")>>, <<BadArg>>, <<Arg("other", "1")>>, <<Arg("ignore", "true")>>,
                 <<Arg("ignore", "false")>>, <<Arg("ignore", "no")>>, <<Arg("access", "na"), Arg("ignore", "true")>>}}
  \cup {[Base("_", n) EXCEPT !.res = TRUE, !.args = a] : n \in 1 .. By, a \in {<<>>, <<Arg("access", "ro")>>}}
  \cup {[Base(nm, n) EXCEPT !.attr = x] : n \in {1, By}, x \in {"bare", "twice", "none"}}
Rest == {Base("a", n) : n \in 1 .. (2 * By)} \cup {Base("b", 1)} \cup {[Base("_", 1) EXCEPT !.res = TRUE]}

Simple == {<<>>, <<Base("a", By)>>, <<Base("a", 2 * By)>>, <<Base("a", 1), Base("b", By - 1)>>, <<Base("b", 1), Base("b", 1)>>}
Args == {<<>>} \cup {<<Arg(k, v)>> : k \in {"order", "debug", "write_endian", "other"}, v \in {"msb", "true", "little", "x"}} \cup {<<BadArg>>}

Plain(x, b, a, fs) == [item |-> x, by |-> By, back |-> b, args |-> a, fields |-> fs]
DeclInit ==
  \/ \E b \in Backings, k \in 1 .. MaxFields : \E p \in 1 .. k, f \in Focus("a") \cup Focus("f"), r \in [1 .. k - 1 -> Rest] :
       d = Plain("struct", b, <<>>, [j \in 1 .. k |-> IF j < p THEN r[j] ELSE IF j = p THEN f ELSE r[j - 1]])
  \/ \E x \in {"struct", "generic", "tuple", "unit", "enum", "fn"}, b \in Backings \cup BadBackings, a \in Args, fs \in Simple :
       d = Plain(x, b, a, fs)

Variants == [nm : {"A", "B"}, has : BOOLEAN, neg : BOOLEAN, mag : {{}, {0}, {By}}, base : BOOLEAN, dflt : BOOLEAN, shape : {"unit", "data"}]
Flags(x, b, a, vs) == [item |-> x, by |-> By, back |-> b, args |-> a, vars |-> vs]
FlagInit ==
  \/ \E x \in {"enum", "struct"}, b \in {T("u", By), T("i", By), T("bool", 1), A("u8", 1), T("none", 0)},
       a \in {<<>>, <<Arg("copy", "true")>>, <<Arg("debug", "true")>>, <<Arg("from_endian", "little")>>, <<BadArg>>} :
       \/ d = Flags(x, b, a, <<>>)
       \/ \E y \in Variants : d = Flags(x, b, a, <<y>>)
  \/ \E y \in Variants, z \in {v \in Variants : v.has /\ ~v.neg /\ v.shape = "unit"} :
       d = Flags("enum", T("u", By), <<>>, <<y, z>>)

Init == \/ DeclInit /\ s = Start
        \/ FlagInit /\ s = FlagStart
IsFlag == "vars" \in DOMAIN d
Next == /\ d' = d
        /\ IF IsFlag THEN ~FlagDone(d, s) /\ s' = ReadFlag(d, s)
                     ELSE ~Done(d, s) /\ s' = Read(d, s)
Spec == Init /\ [][Next]_vars

Finished == IF IsFlag THEN FlagDone(d, s) ELSE Done(d, s)
Agrees == Finished => ((s.bad = "none") = IF IsFlag THEN FlagCoherent(d) ELSE Coherent(d))

(* An accepted declaration seen as a declaration of Layout. *)
RECURSIVE RealSeq(_, _)
RealSeq(fs, k) == IF k = 0 THEN <<>> ELSE RealSeq(fs, k - 1) \o (IF Ignored(fs[k]) THEN <<>> ELSE <<fs[k]>>)
Neg(mag, w) == LET RECURSIVE inc(_, _)
                   inc(x, i) == IF i >= w THEN x ELSE IF i \in x THEN inc(x \ {i}, i + 1) ELSE x \cup {i}
               IN  inc(Compl(mag, w), 0)
AsLayout(order) ==
  LET fs == RealSeq(d.fields, Len(d.fields))
  IN  L!LayoutOf([nm |-> "S", kind |-> "int", nb |-> TypeBits(d.back, By) \div By, by |-> By, order |-> order, fe |-> "big", ie |-> "big",
        we |-> "big", ig |-> 0,
        fields |-> [k \in DOMAIN fs |->
          [nm |-> fs[k].nm, ty |-> CASE fs[k].ty.t = "bool" -> "b" [] fs[k].ty.t = "arr" -> "a" [] fs[k].ty.t = "custom" -> "c" [] OTHER -> fs[k].ty.t,
           n |-> Width(fs[k], By), w |-> TypeBits(fs[k].ty, By), acc |-> "rw", res |-> fs[k].res, att |-> TRUE, hd |-> fs[k].dk = "int",
           df |-> IF fs[k].neg THEN Neg(fs[k].mag, TypeBits(fs[k].ty, By)) ELSE fs[k].mag,
           ck |-> "id", cw |-> Width(fs[k], By), vals |-> {}, fb |-> {}, cm |-> 0, cfe |-> "big", cie |-> "big", cb |-> By]]])
Tiles(X) == /\ UNION {X.rng[f] : f \in DOMAIN X.rng} = 0 .. (X.size - 1)
            /\ \A f, g \in DOMAIN X.rng : f # g => X.rng[f] \cap X.rng[g] = {}
Value(f) == IF f.neg THEN 0 - NatOf(f.mag) ELSE NatOf(f.mag)
DefaultsSurvive ==
  \A k \in DOMAIN d.fields :
    LET f == d.fields[k] IN
    (f.dk = "int" /\ f.ty.t \in {"u", "i"} /\ ~Ignored(f) /\ ~OpenField(f, Width(f, By))) =>
      LET w == TypeBits(f.ty, By)
          fl == [ty |-> f.ty.t, n |-> Width(f, By), w |-> w]
          got == L!Dec(fl, L!Enc(fl, IF f.neg THEN Neg(f.mag, w) ELSE f.mag))
      IN  (IF f.ty.t = "i" THEN IntOf(got, w) ELSE NatOf(got)) = Value(f)
AcceptedIsSound ==
  (Finished /\ ~IsFlag /\ s.bad = "none") => /\ Tiles(AsLayout("lsb")) /\ Tiles(AsLayout("msb"))
                                             /\ DefaultsSurvive
(* An accepted flag enum is well-formed in the sense of Bitflag. *)
FlagIsSound ==
  (Finished /\ IsFlag /\ s.bad = "none") =>
     /\ \A j, k \in DOMAIN d.vars : d.vars[j].mag = d.vars[k].mag => j = k
     /\ \E k \in DOMAIN d.vars : d.vars[k].base \/ d.vars[k].dflt
(* Something is to blame exactly for wrong declarations, and the part at     *)
(* which reading stops is.                                                   *)
BlameIsRight ==
  LET b == IF IsFlag THEN FlagBlame(d) ELSE Blame(d)
      n == IF IsFlag THEN Len(d.vars) ELSE Len(d.fields)
  IN  Finished => /\ ((s.bad = "none") = (b = {}))
                  /\ (s.bad # "none" => (IF s.k - 1 > n THEN 0 ELSE s.k - 1) \in b)
Inv == BlameIsRight /\ Agrees /\ AcceptedIsSound /\ FlagIsSound
=============================================================================
