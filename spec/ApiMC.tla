------------------------------- MODULE ApiMC --------------------------------
(* The properties of Api: P21 (arguments), P22 (features), P23 (access and   *)
(* visibility), checked over declarations, arguments and feature sets that   *)
(* change one choice at a time.                                              *)
EXTENDS Api
CONSTANTS Prop,
          Given,      \* how many choices may differ from the start
          Wide        \* start from more declarations, arguments and features

VARIABLES D, A, F, n, act
vars == <<D, A, F, n, act>>
View == <<D, A, F>>

Fl(nm, up, acc, res, hd, vis) == [nm |-> nm, up |-> up, acc |-> acc, res |-> res, hd |-> hd, vis |-> vis]
Some(kind, ig) ==
  [kind |-> kind, unit |-> IF kind = "int" THEN "bits" ELSE "bytes", ig |-> ig, vis |-> "pub",
   fields |-> <<Fl("a", "A", "rw", FALSE, TRUE, "none"), Fl("b", "B", "ro", FALSE, TRUE, "pub"),
                Fl("c", "C", "wo", FALSE, FALSE, "none"), Fl("_d", "_D", "rw", TRUE, FALSE, "none")>>]
NoArgs == [a \in Args |-> "-"]
AllFeatures == UNION {{Enabling(a), Disabling(a)} : a \in Switches} \cup {"order_lsb", "order_msb"}
               \cup {a \o e : a \in Orders \ {"order"}, e \in {"_little", "_big"}}
Defaults == {Enabling(a) : a \in Switches \ {"array_heap"}} \cup {"disable_array_heap", "order_lsb"}
            \cup {a \o "_big" : a \in Orders \ {"order"}}
Of(f) == CHOOSE a \in Args : \/ a \in Switches /\ f \in {Enabling(a), Disabling(a)}
                             \/ a = "order" /\ f \in {"order_lsb", "order_msb"}
                             \/ a \in Orders \ {"order"} /\ f \in {a \o "_little", a \o "_big"}

Ign == <<[nm |-> "g", vis |-> "none"]>>
Init == /\ D \in {Some(k, Ign) : k \in IF Wide THEN {"int", "arr"} ELSE {"arr"}}
        /\ A \in IF Prop = "P22" /\ Wide THEN {NoArgs, [a \in Args |-> IF a \in Switches THEN "true" ELSE IF a = "order" THEN "msb" ELSE "little"],
                                       [a \in Args |-> IF a \in Switches THEN "false" ELSE IF a = "order" THEN "lsb" ELSE "big"]}
                 ELSE {NoArgs}
        /\ F \in IF Prop = "P23" THEN {Defaults} ELSE {{}, Defaults} \cup (IF Wide THEN {{Disabling(a) : a \in Switches}} ELSE {})
        /\ n = 0 /\ act = [k |-> "none", a |-> "-", f |-> 0]

Values(a) == IF a \in Switches THEN {"-", "true", "false"} ELSE IF a = "order" THEN {"-", "lsb", "msb"} ELSE {"-", "big", "little"}
Vis == {"none", "pub", "crate", "super", "in", "self"}

Next ==
  /\ n < Given /\ n' = n + 1
  /\ \/ /\ Prop \in {"P21", "P22"}
        /\ \E a \in Args : \E v \in Values(a) : A[a] # v /\ A' = [A EXCEPT ![a] = v] /\ act' = [k |-> "arg", a |-> a, f |-> 0]
        /\ UNCHANGED <<D, F>>
     \/ /\ Prop = "P22"
        /\ \E f \in AllFeatures : F' = (IF f \in F THEN F \ {f} ELSE F \cup {f}) /\ act' = [k |-> "feature", a |-> Of(f), f |-> 0]
        /\ UNCHANGED <<D, A>>
     \/ /\ Prop = "P23"
        /\ \E k \in DOMAIN D.fields :
           \E x \in {[D.fields[k] EXCEPT !.acc = c] : c \in {"rw", "ro", "wo", "na"}} \cup {[D.fields[k] EXCEPT !.vis = v] : v \in Vis} :
             D' = [D EXCEPT !.fields[k] = x] /\ act' = [k |-> "field", a |-> "-", f |-> k]
        /\ UNCHANGED <<A, F>>
     \/ /\ Prop = "P23"
        /\ \E v \in Vis : D' = [D EXCEPT !.ig[1].vis = v] /\ act' = [k |-> "ignored", a |-> "-", f |-> 0]
        /\ UNCHANGED <<A, F>>
     \/ /\ Prop = "P23"
        /\ \E v \in Vis : D' = [D EXCEPT !.vis = v] /\ act' = [k |-> "struct", a |-> "-", f |-> 0]
        /\ UNCHANGED <<A, F>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Diff(s, t) == (s \ t) \cup (t \ s)
Change == Diff(Items(D, A, F), Items(D, A', F'))
Copied == IF Heap(D, A, F) THEN {"impl Copy"} ELSE {}

(* What changing one argument (or its preset) may and must change. *)
OnlyItsOwn(a) ==
  /\ a \notin Orders \cup {"bit_ops", "array_heap"} =>
       Change = (IF On(a, A, F) # On(a, A', F') THEN Own(a, D) \ Copied ELSE {})
  /\ a = "bit_ops" => Change = UNION {IF A[g] = "-" /\ On(g, A, F) # On(g, A', F') THEN Own(g, D) ELSE {} : g \in Groups}
  /\ a = "array_heap" => Change \subseteq {"impl Copy"}
  /\ a \in Orders => Change = {}
  /\ Diff(Facts(D, A, F), Facts(D, A', F')) \subseteq
       (IF a = "array_heap" THEN {"heap", "inline"} ELSE {a \o "=" \o e : e \in {"lsb", "msb", "big", "little"}})

Master(A0, F0) ==
  \A g \in Groups :
    /\ Chosen("bit_ops", A0, F0) /\ F0 = Defaults => (On(g, A0, F0) <=> A0[g] # "false")
    /\ ~Chosen("bit_ops", A0, F0) => (On(g, A0, F0) <=> A0[g] = "true")

P21 == act'.k = "arg" => OnlyItsOwn(act'.a) /\ Master(A', F')

P22 ==
  /\ act'.k = "arg" => OnlyItsOwn(act'.a)
  /\ act'.k = "feature" =>
       /\ OnlyItsOwn(act'.a)
       \* an explicit argument overrides the features
       /\ A[act'.a] # "-" => Change = {} /\ Facts(D, A, F) = Facts(D, A, F')
       \* enabling wins, and so does leaving both out
       /\ \A a \in Switches \ (Groups \cup {"array_heap"}) :
            A[a] = "-" => (On(a, A, F') <=> (Enabling(a) \in F' \/ Disabling(a) \notin F'))
       /\ \A g \in Groups : A[g] = "-" => (On(g, A, F') <=> (Chosen("bit_ops", A, F') /\ (Enabling(g) \in F' \/ Disabling(g) \notin F')))
       /\ A["order"] = "-" => (ChosenOrder("order", A, F') = "msb" <=> ("order_msb" \in F' /\ "order_lsb" \notin F'))
       /\ \A a \in Orders \ {"order"} : A[a] = "-" =>
            (ChosenOrder(a, A, F') = "little" <=> ((a \o "_little") \in F' /\ (a \o "_big") \notin F'))

P23 ==
  /\ act'.k = "field" =>
       \A p \in Places : Diff(VisibleItems(D, p), VisibleItems(D', p)) \subseteq AllFieldItems(D.fields[act'.f])
  /\ act'.k = "struct" =>
       \* declared visibilities do not depend on the bitfield's
       \A p \in Places, k \in DOMAIN D.fields : D.fields[k].vis # "none" =>
         (VisibleItems(D, p) \cap AllFieldItems(D.fields[k])) = (VisibleItems(D', p) \cap AllFieldItems(D.fields[k]))

  \* nothing else depends on an ignored field, nor the field on the bitfield's visibility
  /\ act'.k = "ignored" => \A p \in Places : Diff(VisibleItems(D, p), VisibleItems(D', p)) \subseteq IgnoredItems(D)
  /\ act'.k # "ignored" => \A p \in Places : VisibleItems(D, p) \cap IgnoredItems(D) = VisibleItems(D', p) \cap IgnoredItems(D)

Step == CASE Prop = "P21" -> P21 [] Prop = "P22" -> P22 [] Prop = "P23" -> P23
Property == [][Step]_vars

Inv ==
  /\ \A a, b \in Switches : a # b => Own(a, D) \cap Own(b, D) = {}
  /\ \A a \in Switches : Own(a, D) \cap Always(D) = {}
  /\ \A p \in Places : VisibleItems(D, p) \cap Storage(D) = {}
  /\ VisibleItems(D, "other") \subseteq VisibleItems(D, "crate")
  /\ VisibleItems(D, "crate") \subseteq VisibleItems(D, "parent")
  /\ VisibleItems(D, "parent") \subseteq VisibleItems(D, "inner")
  /\ \A k \in DOMAIN D.fields : LET f == D.fields[k] IN
       /\ (f.nm \in VisibleItems(D, "inner")) <=> Readable(f)
       /\ (("set_" \o f.nm) \in VisibleItems(D, "inner")) <=> Writable(f)
       /\ (("B::with_" \o f.nm) \in VisibleItems(D, "inner")) <=> (Readable(f) \/ Writable(f))
       /\ (f.res \/ f.acc = "na") => AllFieldItems(f) \cap VisibleItems(D, "inner") = {}
=============================================================================
