------------------------------- MODULE BitVec -------------------------------
(* Fixed-size bit vectors as sets of the positions that hold a 1; position 0 *)
(* is the least significant bit.  A vector carries no width of its own: the  *)
(* operators below take the width where it matters.                          *)
EXTENDS Integers, Sequences, FiniteSets

Bits(n) == 0 .. (n - 1)

(* The low n bits of s. *)
Trunc(s, n) == {i \in s : i < n}

(* s moved up by k positions. *)
Shl(s, k) == {i + k : i \in s}

(* Bits off .. off+n-1 of s, moved down to position 0. *)
Slice(s, off, n) == {i - off : i \in {j \in s : j >= off /\ j < off + n}}

(* s with bits off .. off+n-1 replaced by the low n bits of x. *)
Put(s, off, n, x) == {i \in s : i < off \/ i >= off + n} \cup Shl(Trunc(x, n), off)

(* The complement of s within n bits. *)
Compl(s, n) == Bits(n) \ s

(* The n-bit two's complement number s, extended to w bits. *)
SignExt(s, n, w) == IF (n - 1) \in s THEN s \cup (n .. (w - 1)) ELSE s

(* The nb bytes (of by bits each) of s in reverse order. *)
RevBytes(s, nb, by) == {((nb - 1) - (i \div by)) * by + (i % by) : i \in s}

(* s as an unsigned number fits in n bits. *)
FitsU(s, n) == \A i \in s : i < n

(* s as a w-bit two's complement number fits in n bits: the bits from the    *)
(* sign bit of the narrow number upwards are all equal.                      *)
FitsS(s, n, w) == LET top == (n - 1) .. (w - 1)
                  IN  (top \subseteq s) \/ (top \cap s = {})

(* The number denoted by s, for widths that TLC's integers can hold.         *)
RECURSIVE NatOf(_)
NatOf(s) == IF s = {} THEN 0
            ELSE LET i == CHOOSE j \in s : TRUE IN 2^i + NatOf(s \ {i})
IntOf(s, w) == IF (w - 1) \in s THEN NatOf(s) - 2^w ELSE NatOf(s)
=============================================================================
