-------------------------------- MODULE Api ---------------------------------
(* Which functions, constants and trait implementations the macro generates  *)
(* for a declaration, depending on the arguments of the attribute, on the    *)
(* Cargo features of the macro crate and on the access of the fields, where  *)
(* each of them can be named from, and which byte and bit orders apply.      *)
(*   D  [kind, unit, fields, ig, vis]; a field is [nm, up, acc, res, hd, vis]*)
(*      and an ignored one in ig [nm, vis]                                   *)
(*   A  a function from the arguments to "-" (not given) or their value      *)
(*   F  the set of enabled features                                          *)
EXTENDS Naturals, Sequences, FiniteSets

Groups == {"write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops"}
Switches == {"new", "from_into_bits", "from_traits", "default", "debug", "copy", "bit_ops", "builder", "array_heap"} \cup Groups
Orders == {"order", "from_endian", "into_endian", "write_endian"}
Args == Switches \cup Orders

----------------------------------------------------------------------------
(* Features *)
Enabling(a) == CASE a = "copy" -> "derive_copy" [] a = "array_heap" -> "enable_array_heap" [] OTHER -> "generate_" \o a
Disabling(a) == "disable_" \o a

(* Enabling wins over disabling for everything that is generated; heap       *)
(* storage is opt-in and not for a build that also disables it.              *)
Preset(a, F) == IF a = "array_heap" THEN Enabling(a) \in F /\ Disabling(a) \notin F
                                    ELSE Enabling(a) \in F \/ Disabling(a) \notin F
OrderPreset(a, F) ==
  IF a = "order" THEN IF "order_msb" \in F /\ "order_lsb" \notin F THEN "msb" ELSE "lsb"
                 ELSE IF (a \o "_little") \in F /\ (a \o "_big") \notin F THEN "little" ELSE "big"

FlagPreset(a, F) ==
  IF a = "copy" THEN IF "bitflag_derive_copy" \in F \/ "bitflag_disable_copy" \notin F THEN "true" ELSE "false"
                ELSE IF ("bitflag_" \o a \o "_little") \in F /\ ("bitflag_" \o a \o "_big") \notin F THEN "little" ELSE "big"

Chosen(a, A, F) == IF A[a] = "-" THEN Preset(a, F) ELSE A[a] = "true"
ChosenOrder(a, A, F) == IF A[a] = "-" THEN OrderPreset(a, F) ELSE A[a]
ChosenFlag(a, A, F) == IF A[a] = "-" THEN FlagPreset(a, F) ELSE A[a]

(* Whether the items of argument a are generated. *)
On(a, A, F) == IF a \in Groups THEN IF Chosen("bit_ops", A, F) THEN Chosen(a, A, F) ELSE A[a] = "true"
                               ELSE Chosen(a, A, F)

----------------------------------------------------------------------------
(* Items *)
Readable(f) == ~f.res /\ f.acc \in {"rw", "ro"}
Writable(f) == ~f.res /\ f.acc \in {"rw", "wo"}
Fields(D) == {D.fields[k] : k \in DOMAIN D.fields}
Heap(D, A, F) == D.kind = "arr" /\ On("array_heap", A, F)

Always(D) ==
  {f.nm : f \in {g \in Fields(D) : Readable(g)}}
  \cup UNION {{"set_" \o f.nm, "checked_set_" \o f.nm} : f \in {g \in Fields(D) : Writable(g)}}
  \cup UNION {{f.up \o "_BITS", f.up \o "_OFFSET"} : f \in {g \in Fields(D) : Readable(g) \/ Writable(g)}}

Dir == {"", "le_", "be_"}
Wds == {"", "_with_defaults"}
Own(a, D) ==
  LET u == D.unit
      ws == {f \in Fields(D) : Writable(f)}
      rs == {f \in Fields(D) : Readable(f)}
  IN
  CASE a = "new" -> {"new", "new_without_defaults"}
    [] a = "from_into_bits" ->
         {"from_" \o e \o u \o w : e \in Dir, w \in Wds} \cup {"into_" \o e \o u : e \in Dir}
         \cup (IF D.kind = "int" THEN {} ELSE
               {c \o "from_" \o e \o "slice" \o w : c \in {"", "checked_"}, e \in Dir, w \in Wds}
               \cup {c \o "into_" \o e \o "slice" : c \in {"", "checked_"}, e \in Dir})
    [] a = "from_traits" -> {"impl From<backing>", "impl Into<backing>"}
    [] a = "default" -> {"impl Default"}
    [] a = "debug" -> {"impl Debug"}
    [] a = "copy" -> {"impl Copy", "impl Clone"}
    [] a = "write_bit_ops" -> {"write_" \o e \o u \o w : e \in Dir, w \in Wds} \cup {"write_defaults"}
    [] a = "clear_bit_ops" ->
         {"clear_" \o u, "clear_" \o u \o "_with_defaults"} \cup {"clear_" \o f.nm : f \in ws}
         \cup {"clear_" \o f.nm \o "_to_default" : f \in {g \in ws : g.hd}}
    [] a = "set_get_bit_ops" ->
         {c \o d \o "_bit" : c \in {"", "checked_"}, d \in {"set", "get"}}
         \cup {c \o d \o "_" \o u \o "_range" : c \in {"", "checked_"}, d \in {"set", "get"}}
    [] a = "invert_bit_ops" ->
         {"invert_" \o u} \cup {"invert_" \o f.nm : f \in ws} \cup {f.nm \o "_inverted" : f \in rs}
    [] a = "builder" ->
         {"B::new", "B::new_without_defaults", "B::build", "B impl Default"}
         \cup UNION {{"B::with_" \o f.nm, "B::checked_with_" \o f.nm} : f \in ws \cup rs}
    [] OTHER -> {}          \* bit_ops only governs the groups; toggle_bit_ops and array_heap have no items of their own

Items(D, A, F) ==
  (Always(D) \cup UNION {IF On(a, A, F) THEN Own(a, D) ELSE {} : a \in Switches})
  \ (IF Heap(D, A, F) THEN {"impl Copy"} ELSE {})

Universe(D) == Always(D) \cup UNION {Own(a, D) : a \in Switches}

(* Facts about the chosen orders and storage that can be observed. *)
Facts(D, A, F) ==
  {a \o "=" \o ChosenOrder(a, A, F) : a \in Orders} \cup {IF Heap(D, A, F) THEN "heap" ELSE "inline"}
AllFacts == {"order=lsb", "order=msb", "heap", "inline"} \cup {a \o "=" \o e : a \in Orders \ {"order"}, e \in {"big", "little"}}

FlagFacts(A, F) ==
  {a \o "=" \o ChosenFlag(a, A, F) : a \in {"from_endian", "into_endian"}}
  \cup (IF ChosenFlag("copy", A, F) = "true" THEN {"impl Copy", "impl Clone"} ELSE {})

----------------------------------------------------------------------------
(* Visibility: where a name declared with visibility vis in module inner,    *)
(* itself in module parent of the crate, can be used.                        *)
Places == {"inner", "parent", "crate", "other"}
Seen(vis, place) ==
  CASE vis = "pub" -> TRUE
    [] vis = "crate" -> place # "other"
    [] vis \in {"super", "in"} -> place \in {"inner", "parent"}
    [] OTHER -> place = "inner"                   \* private, pub(self)
FieldVis(D, f) == IF f.vis = "none" THEN D.vis ELSE f.vis

(* The items of field f that follow its visibility. *)
FieldItems(D, f) ==
  (IF Readable(f) THEN {f.nm} ELSE {})
  \cup (IF Writable(f) THEN {"set_" \o f.nm, "checked_set_" \o f.nm} ELSE {})
  \cup (IF Readable(f) \/ Writable(f) THEN {f.up \o "_BITS", f.up \o "_OFFSET", "B::with_" \o f.nm, "B::checked_with_" \o f.nm} ELSE {})
AllFieldItems(f) == {f.nm, "set_" \o f.nm, "checked_set_" \o f.nm, f.up \o "_BITS", f.up \o "_OFFSET",
                     "B::with_" \o f.nm, "B::checked_with_" \o f.nm}
(* and the ones of the whole bitfield that follow the bitfield's. *)
WholeItems(D) == UNION {Own(a, [D EXCEPT !.fields = <<>>]) : a \in {"new", "from_into_bits", "write_bit_ops", "clear_bit_ops",
                                                                 "set_get_bit_ops", "invert_bit_ops", "builder"}} \ {"B impl Default"}
(* Ignored fields are fields of the struct with the visibility they are      *)
(* declared with; the storage of the bits is private to the module.          *)
Ignored(D) == {D.ig[k] : k \in DOMAIN D.ig}
IgnoredItems(D) == {"." \o g.nm : g \in Ignored(D)}
Storage(D) == {".0", ".val"} \ IgnoredItems(D)

VisibleItems(D, place) ==
  UNION {IF Seen(FieldVis(D, f), place) THEN FieldItems(D, f) ELSE {} : f \in Fields(D)}
  \cup (IF Seen(D.vis, place) THEN WholeItems(D) ELSE {})
  \cup {"." \o g.nm : g \in {h \in Ignored(D) : Seen(h.vis, place)}}
=============================================================================
