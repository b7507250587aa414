------------------------------ MODULE CdrBytes ------------------------------
(* Placing values in a CDR buffer: atoms are numbers, padded to their alignment *)
(* counted from the end of the four-byte header, and unaligned runs of bytes.   *)
EXTENDS Integers, Sequences, SequencesExt
Lesser(a, b) == IF a < b THEN a ELSE b
(* m: 0, or a count of things that take at least m bytes each *)
Num(bs) == [n |-> TRUE, b |-> bs, m |-> 0]
Raw(bs) == [n |-> FALSE, b |-> bs, m |-> 0]
LowToHigh(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, (x \div 16777216) % 256>>
U32(x) == Num(LowToHigh(x))
Count(x, m) == [n |-> TRUE, b |-> LowToHigh(x), m |-> m]
StrAtoms(s) == <<Count(Len(s) + 1, 1), Raw(Append(s, 0))>>
(* padding in front of a number of the given size at offset at (from the end of the header) *)
PadTo(at, size, maxalign) == LET al == Lesser(size, maxalign) IN (al - (at % al)) % al
Zeros(n) == [j \in 1..n |-> 0]
Placed(o, a, maxalign, big) ==
  IF a.n THEN o \o Zeros(PadTo(Len(o) - 4, Len(a.b), maxalign)) \o (IF big THEN Reverse(a.b) ELSE a.b) ELSE o \o a.b
PlaceAll(o, atoms, maxalign, big) == FoldLeft(LAMBDA acc, a : Placed(acc, a, maxalign, big), o, atoms)
=============================================================================
