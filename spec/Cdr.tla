-------------------------------- MODULE Cdr ---------------------------------
(***************************************************************************)
(* Common Data Representation as nanocdr writes and reads it.              *)
(* A value is a record [k, v] (v: bytes of numbers are given low to high): *)
(*   k = "n"   number (also booleans): v = its bytes                       *)
(*   k = "s"   string: v = bytes           k = "b"   byte block: v = bytes *)
(*   k = "v"   vector of numbers, v = sequence of numbers, z = their size  *)
(*   k = "c"   the count v of the structures that follow, z = the least    *)
(*             number of bytes one of them takes                           *)
(*   k = "a"   array of numbers            k = "vs"  vector of strings     *)
(*   k = "r"   structure: v = sequence of values, one after the other      *)
(* Two machines run over one case: the writer appends the atoms (numbers,  *)
(* padded to their alignment, and unaligned runs of bytes) of every value; *)
(* its bytes must be those of the real writer.  The reader then takes the  *)
(* atoms off the same bytes; the real reader must have found the same      *)
(* values, and must have thrown for every strict prefix.                   *)
(* Case: ver (1..3), enc (0, 2, 4), big (0/1), items, bytes (real writer), *)
(*   dec ("ok" or what happened), back (1: the real reader's values are    *)
(*   the items), dmg (<<high and low half of a number, one outcome per     *)
(*   multiple of 4 where it was written over the bytes of the buffer>>: a  *)
(*   count that the rest of the buffer can not hold is refused ("t"),      *)
(*   whatever it multiplies to, without asking for that much memory        *)
(*   ("a")), left (bytes the real reader did not consume), cuts (one   *)
(*   outcome per strict prefix), hdrs (<<b0,b1,b2,b3,default,outcome>>,    *)
(*   outcome 0 = threw, else the version the real reader chose)            *)
(***************************************************************************)
EXTENDS CdrBytes, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, i, todo, out, pos, cnt, bad
vars == <<c, ph, i, todo, out, pos, cnt, bad>>
K == Cases[c]
V1 == 1  V2 == 2  V3 == 3       \* DDS_CDR, XCDRv1, XCDRv2
MaxAlign == IF K.ver = V3 THEN 4 ELSE 8
RECURSIVE Atoms(_)
Atoms(it) ==
  CASE it.k = "n" -> <<Num(it.v)>>
    [] it.k = "s" -> StrAtoms(it.v)
    [] it.k = "c" -> <<Count(it.v, it.z)>>
    [] it.k = "b" -> <<Count(Len(it.v), 1), Raw(it.v)>>
    [] it.k = "v" -> <<Count(Len(it.v), it.z)>> \o [j \in 1..Len(it.v) |-> Num(it.v[j])]
    [] it.k = "a" -> [j \in 1..Len(it.v) |-> Num(it.v[j])]
    [] it.k = "vs" -> <<Count(Len(it.v), 4)>> \o FlattenSeq([j \in 1..Len(it.v) |-> StrAtoms(it.v[j])])
    [] it.k = "r" -> FlattenSeq([j \in 1..Len(it.v) |-> Atoms(it.v[j])])
InOrder(bs) == IF K.big = 1 THEN Reverse(bs) ELSE bs
Pad(at, size) == PadTo(at, size, MaxAlign)
HeaderBytes == <<0, K.enc + 1 - K.big, 0, 0>>
(* what a reader makes of the four header bytes, 0 = rejects *)
ReadHeader(h, default) ==
  LET e == h[2] - (h[2] % 2) IN
  IF h[1] # 0 \/ h[3] # 0 \/ h[4] # 0 THEN 0
  ELSE IF e = 0 THEN (IF default = V1 THEN V1 ELSE V2)
  ELSE IF e = 2 THEN (IF default = V1 THEN 0 ELSE V2)
  ELSE IF e = 4 THEN (IF default = V1 THEN 0 ELSE V3)
  ELSE 0

Init == c \in 1..Len(Cases) /\ ph = "write" /\ i = 1 /\ todo = <<>> /\ out = <<0, Cases[c].enc + 1 - Cases[c].big, 0, 0>> /\ pos = 0 /\ cnt = {} /\ bad = ""
NextValue == /\ ph = "write" /\ todo = <<>> /\ i <= Len(K.items)
             /\ todo' = Atoms(K.items[i]) /\ i' = i + 1 /\ UNCHANGED <<c, ph, out, pos, cnt, bad>>
WriteAtom == /\ ph = "write" /\ todo # <<>>
             /\ out' = Placed(out, todo[1], MaxAlign, K.big = 1) /\ todo' = Tail(todo) /\ UNCHANGED <<c, ph, i, pos, cnt, bad>>
Written == /\ ph = "write" /\ todo = <<>> /\ i > Len(K.items)
           /\ ph' = "read" /\ i' = 1 /\ pos' = 4
           /\ bad' = IF out = K.bytes THEN "" ELSE "Bytes"
           /\ UNCHANGED <<c, todo, out, cnt>>
(* the reader: every atom must be found where the writer's rules put it *)
NextRead == /\ ph = "read" /\ todo = <<>> /\ i <= Len(K.items)
            /\ todo' = Atoms(K.items[i]) /\ i' = i + 1 /\ UNCHANGED <<c, ph, out, pos, cnt, bad>>
ReadAtom == /\ ph = "read" /\ todo # <<>>
            /\ LET a == todo[1]
                   p == IF a.n THEN pos + Pad(pos - 4, Len(a.b)) ELSE pos
               IN /\ Assert(p + Len(a.b) <= Len(out) /\ SubSeq(out, p + 1, p + Len(a.b)) = (IF a.n THEN InOrder(a.b) ELSE a.b), <<"reader and writer of the specification disagree", K>>)
                  /\ Assert(~a.n \/ (p - 4) % Lesser(Len(a.b), MaxAlign) = 0, "alignment")
                  /\ pos' = p + Len(a.b)
                  /\ cnt' = IF a.m > 0 THEN cnt \cup {<<p, a.m>>} ELSE cnt
            /\ todo' = Tail(todo) /\ UNCHANGED <<c, ph, i, out, bad>>
BadHeader == {h \in 1..Len(K.hdrs) : ReadHeader(SubSeq(K.hdrs[h], 1, 4), K.hdrs[h][5]) # K.hdrs[h][6]}
Outcome(s, k) == IF k + 1 > Len(s) THEN "t" ELSE s[k + 1]
TooMany(hi, lo, m, rest) == hi > 0 \/ lo * m > rest       \* buffers are shorter than 2^16 here
BadCount == {p \in cnt : p[1] % 4 = 0 /\ \E d \in {K.dmg[j] : j \in 1..Len(K.dmg)} : TooMany(d[1], d[2], p[2], Len(out) - p[1] - 4) /\ Outcome(d[3], p[1] \div 4) # "t"}
BadCut == {j \in 1..Len(K.cuts) : K.cuts[j] # "t"}
Judge == /\ ph = "read" /\ todo = <<>> /\ i > Len(K.items) /\ Assert(pos = Len(out), "read length")
         /\ ph' = "done"
         /\ bad' = IF bad # "" THEN bad ELSE IF K.dec # "ok" THEN "Accepts" ELSE IF K.back # 1 THEN "Values" ELSE IF K.left # 0 THEN "Consumed"
                   ELSE IF BadCut # {} THEN "Truncated" ELSE IF BadCount # {} THEN "Count" ELSE IF BadHeader # {} THEN "Header" ELSE ""
         /\ UNCHANGED <<c, i, todo, out, pos, cnt>>
MinOf(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x <= y
Report == /\ ph = "done" /\ ph' = "end" /\ PrintT(<<"D", c, IF bad = "" THEN "ok" ELSE bad, MinOf(BadCut), MinOf(BadHeader), MinOf({p[1] : p \in BadCount})>>)
          /\ UNCHANGED <<c, i, todo, out, pos, cnt, bad>>
Next == NextValue \/ WriteAtom \/ Written \/ NextRead \/ ReadAtom \/ Judge \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
