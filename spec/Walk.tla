-------------------------------- MODULE Walk --------------------------------
(* Behaviours of the specification for replay into the real code.  TLC's     *)
(* simulator walks from a random backing value of one of the declarations in *)
(* the file TRACES; every step is one call with arguments drawn at random or *)
(* at the edges of what the declaration makes special.  Each call is printed *)
(* and later performed by the generated code, and module Trace judges what   *)
(* the code did.                                                             *)
EXTENDS Bitfield, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)

SetOf(q) == {q[k] : k \in DOMAIN q}
DeclOf(j) ==
  [j EXCEPT !.fields = [k \in DOMAIN j.fields |->
     [j.fields[k] EXCEPT !.df = SetOf(@), !.fb = SetOf(@), !.vals = {SetOf(@[m]) : m \in DOMAIN @}]]]

Coin == RandomElement({TRUE, FALSE})
(* RandomElement may be evaluated again at every use of a definition, so     *)
(* values that are used twice are bound as elements of one-element sets.     *)
Pick(S, Op(_)) == UNION {Op(x) : x \in {RandomElement(S)}}

(* A bit vector of n bits: often a special one. *)
Vector(n) ==
  IF n = 0 THEN {}
  ELSE Pick(1 .. 7, LAMBDA k :
         CASE k = 1 -> {}
           [] k = 2 -> Bits(n)
           [] k = 3 -> {RandomElement(Bits(n))}
           [] k = 4 -> 0 .. (RandomElement(0 .. n) - 1)
           [] k = 5 -> RandomElement(0 .. n) .. (n - 1)
           [] OTHER -> {i \in Bits(n) : Coin})
(* A value of the type of a field, often just within or just beyond what     *)
(* the field holds.                                                          *)
Value(fl) ==
  CASE fl.ty = "b"   -> Vector(1)
    [] fl.ck = "tab" -> RandomElement(fl.vals)
    [] OTHER ->
         Pick({Trunc(Vector(fl.w), fl.w)}, LAMBDA x :
           Pick(1 .. 4, LAMBDA m :
             CASE m = 1 -> Trunc(x, fl.n)
               [] m = 2 -> IF fl.ty = "i" THEN SignExt(Trunc(x, fl.n), fl.n, fl.w)
                           ELSE Trunc(x, fl.n) \cup (IF fl.n < fl.w THEN {fl.n} ELSE {})
               [] OTHER -> x))

Builders(L) == {f \in DOMAIN L.off : HasBuilder(L.d.fields[f])}
Step(L) == CHOOSE s \in {[f |-> f, ck |-> Coin, x |-> Value(L.d.fields[f])] : f \in {RandomElement(Builders(L))}} : TRUE
Steps(L) == IF Builders(L) = {} THEN <<>>
            ELSE [j \in 1 .. RandomElement(0 .. 4) |-> Step(L)]

Edges(L) == UNION {{L.off[f], L.off[f] + L.d.fields[f].n - 1, L.off[f] + L.d.fields[f].n} : f \in DOMAIN L.off}
            \cup {0, L.size - 1, L.size}
Beyond(L, o) == {x \in Edges(L) : x >= o}

Blank == [op |-> "none", f |-> 1, x |-> {}, o |-> 0, l |-> 0, en |-> "def", wd |-> FALSE, ck |-> FALSE, st |-> <<>>]

OnField == {"const", "get", "set", "cset", "ginv", "clearf", "clearfd", "invf"}
HasOffset == {"sbit", "csbit", "gbit", "cgbit", "srange", "csrange", "grange", "cgrange"}
HasEndian == {"from", "into", "fslice", "islice", "write"}
Fields(L, op) == IF op \in OnField THEN {f \in DOMAIN L.off : Callable(L, [Blank EXCEPT !.op = op, !.f = f])} ELSE {1}
Possible(L, op) == Fields(L, op) # {}

Offsets(L, op) == IF op \notin HasOffset THEN {0} ELSE IF Coin THEN Edges(L) ELSE 0 .. (L.size + 1)
Lengths(L, op, o) ==
  CASE op \in {"fslice", "islice"} -> {0, 1, L.d.nb - 1, L.d.nb, L.d.nb + 1, L.d.nb + 4}
    [] op \in {"srange", "csrange", "grange", "cgrange"} ->
         IF Coin /\ Beyond(L, o) # {} THEN {x - o : x \in Beyond(L, o)} ELSE 0 .. (L.size + 1)
    [] op = "igset" -> 0 .. 1
    [] OTHER -> {0}
Argument(L, op, f, l) ==
  CASE op \in {"set", "cset"} -> Value(L.d.fields[f])
    [] op \in {"inject", "from", "write", "srange", "csrange"} -> Vector(L.size)
    [] op \in {"fslice", "islice"} -> Vector(l * L.d.by)
    [] op \in {"sbit", "csbit"} -> Vector(1)
    [] OTHER -> {}

VARIABLES d, L, calls, k, v, ig
vars == <<d, L, calls, k, v, ig>>

Init == /\ d \in DOMAIN Data.decls
        /\ L = LayoutOf(DeclOf(Data.decls[d]))
        /\ calls = {q \in {Data.ops[d][j] : j \in DOMAIN Data.ops[d]} : Possible(L, q)}
        /\ k = 0
        /\ v = {}
        /\ ig = [j \in 1 .. L.d.ig |-> 0]

Next ==
  \E op \in {IF k = 0 THEN "inject" ELSE RandomElement(calls)} :
  \E f \in {IF op = "igset" THEN RandomElement(1 .. L.d.ig) ELSE RandomElement(Fields(L, op))} :
  \E o \in {RandomElement(Offsets(L, op))} :
  \E l \in {RandomElement(Lengths(L, op, o))} :
  \E x \in {Argument(L, op, f, l)} :
  \E en \in {IF op \in HasEndian THEN RandomElement({"def", "le", "be"}) ELSE "def"} :
  \E wd \in {(op \in {"from", "fslice", "write", "build", "debug"}) /\ Coin} :
  \E ck \in {(op \in {"fslice", "islice"}) /\ Coin} :
  \E st \in {IF op = "build" THEN Steps(L) ELSE <<>>} :
    LET e == [op |-> op, f |-> f, x |-> x, o |-> o, l |-> l, en |-> en, wd |-> wd, ck |-> ck, st |-> st]
        r == Effect(L, [v |-> v, ig |-> ig], e)
    IN  /\ PrintT(<<"CALL", ToJson([d |-> d, k |-> k, call |-> e])>>)
        /\ v' = r.v /\ ig' = r.ig
        /\ k' = k + 1 /\ UNCHANGED <<d, L, calls>>

Spec == Init /\ [][Next]_vars
TypeOK == v \subseteq Bits(L.size)
=============================================================================
