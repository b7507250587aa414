--------------------------- MODULE ColumnChoice -----------------------------
(***************************************************************************)
(* How wire version 5 stores integer columns.  The state machine reads the *)
(* columns value by value (in blocks) and keeps, for the chunk it is in,   *)
(* the number of bytes each of the four codings has taken so far; after    *)
(* the first 4096 points of the cloud (or all, if fewer) it notes what the *)
(* cheapest codings are.  At the end of a chunk the recorded chunk of the  *)
(* real encoder is inspected: every column's section must be coded in one  *)
(* of the cheapest ways (delta coding when that is among them), must have  *)
(* exactly the size of that coding, and must be coded as in earlier chunks.*)
(*                                                                         *)
(* Case: n; reg = bytes of the fields coded before the columns, per point; *)
(* cols = sequence of [sz, v (64-bit words)]; chunks = recorded chunks,    *)
(* each as its bytes.                                                      *)
(***************************************************************************)
EXTENDS Bits64, TLC, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.CASES)
ChunkPoints == 32768
ProbePoints == 4096
Block == 512
VARIABLES c, ph, ch, col, at, acc, choice, sizes, pos, bad
vars == <<c, ph, ch, col, at, acc, choice, sizes, pos, bad>>
K == Cases[c]
Min2(a, b) == IF a < b THEN a ELSE b
Base == (ch - 1) * ChunkPoints
ChunkLen == Min2(K.n - Base, ChunkPoints)
\* the running sizes: delta bytes; RLE bytes, value and length of the open run; delta-RLE likewise
Fresh == [d |-> 1, prev |-> Zero, r |-> 5, rv |-> <<>>, rl |-> 0, e |-> 5, ev |-> <<>>, el |-> 0]
Put(a, v, sz) ==
  With(Sub(v, a.prev), LAMBDA df : With(SSize(df), LAMBDA s :
    [d |-> a.d + s, prev |-> v,
     r |-> IF a.rl > 0 /\ a.rv = v THEN a.r ELSE a.r + (IF a.rl > 0 THEN NSize(a.rl) ELSE 0) + sz,
     rv |-> v, rl |-> IF a.rl > 0 /\ a.rv = v THEN a.rl + 1 ELSE 1,
     e |-> IF a.el > 0 /\ a.ev = df THEN a.e ELSE a.e + (IF a.el > 0 THEN NSize(a.el) ELSE 0) + s,
     ev |-> df, el |-> IF a.el > 0 /\ a.ev = df THEN a.el + 1 ELSE 1]))
PutAll(a, vs, sz) == FoldLeft(LAMBDA x, v : Put(x, v, sz), a, vs)
PaletteSize(vs, sz) == With(Cardinality({vs[j] : j \in 1..Len(vs)}), LAMBDA k : 3 + k * sz + (IndexBits(k) * Len(vs) + 7) \div 8)
\* sizes of the four codings, by mode number + 1
Totals(a, vs, sz) == <<a.d, PaletteSize(vs, sz), a.r + (IF a.rl > 0 THEN NSize(a.rl) ELSE 0), a.e + (IF a.el > 0 THEN NSize(a.el) ELSE 0)>>
Cheapest(t) == LET m == CHOOSE x \in {t[i] : i \in 1..4} : \A i \in 1..4 : x <= t[i]
               IN IF t[1] = m THEN {0} ELSE {i \in 0..3 : t[i + 1] = m}

Init == /\ c \in 1..Len(Cases) /\ ph = (IF Cases[c].n = 0 THEN "done" ELSE "read") /\ ch = 1 /\ col = 1 /\ at = 0 /\ acc = Fresh
        /\ choice = [i \in 1..Len(Cases[c].cols) |-> {}] /\ sizes = <<>> /\ pos = 0 /\ bad = <<>>
Vals(a, b) == SubSeq(K.cols[col].v, a + 1, b)
Read ==
  /\ ph = "read" /\ at < ChunkLen
  /\ LET to == Min2(at + Block, ChunkLen) IN
     \E a \in {PutAll(acc, Vals(Base + at, Base + to), K.cols[col].sz)} :
        /\ acc' = a /\ at' = to
        /\ choice' = IF ch = 1 /\ (to = ProbePoints \/ (to = ChunkLen /\ to < ProbePoints))
                     THEN [choice EXCEPT ![col] = Cheapest(Totals(a, Vals(0, to), K.cols[col].sz))] ELSE choice
  /\ UNCHANGED <<c, ph, ch, col, sizes, pos, bad>>
ReadDone ==
  /\ ph = "read" /\ at = ChunkLen
  /\ sizes' = Append(sizes, Totals(acc, Vals(Base, Base + ChunkLen), K.cols[col].sz))
  /\ acc' = Fresh /\ at' = 0
  /\ IF col < Len(K.cols) THEN col' = col + 1 /\ UNCHANGED <<ph, pos>>
     ELSE col' = 1 /\ ph' = "look" /\ pos' = K.reg * ChunkLen
  /\ UNCHANGED <<c, ch, choice, bad>>
Fail(w) == bad' = <<w, ch, col>> /\ ph' = "done" /\ UNCHANGED <<c, ch, col, at, acc, choice, sizes, pos>>
Look ==
  /\ ph = "look"
  /\ IF ch > Len(K.chunks) THEN Fail("glue")
     ELSE IF col > Len(K.cols) THEN
       IF pos # Len(K.chunks[ch]) THEN Fail("glue")
       ELSE IF Base + ChunkLen = K.n THEN ph' = "done" /\ UNCHANGED <<c, ch, col, at, acc, choice, sizes, pos, bad>>
       ELSE ph' = "read" /\ ch' = ch + 1 /\ col' = 1 /\ sizes' = <<>> /\ UNCHANGED <<c, at, acc, choice, pos, bad>>
     ELSE IF pos >= Len(K.chunks[ch]) THEN Fail("glue")
     ELSE LET m == K.chunks[ch][pos + 1] IN
          IF m > 3 THEN Fail("glue")
          ELSE IF m \notin choice[col] THEN Fail(IF ch = 1 \/ Cardinality(choice[col]) > 1 THEN "Cheapest" ELSE "Kept")
          ELSE /\ pos' = pos + sizes[col][m + 1] /\ col' = col + 1 /\ choice' = [choice EXCEPT ![col] = {m}]
               /\ UNCHANGED <<c, ph, ch, at, acc, sizes, bad>>
Report == ph = "done" /\ ph' = "end"
          /\ PrintT(<<"D", c, IF bad = <<>> THEN "ok" ELSE bad[1], ch, col,
                      IF bad # <<>> /\ ch <= Len(K.chunks) /\ pos < Len(K.chunks[ch]) THEN K.chunks[ch][pos + 1] ELSE -1,
                      IF bad # <<>> /\ col <= Len(sizes) THEN sizes[col][1] ELSE 0, IF bad # <<>> /\ col <= Len(sizes) THEN sizes[col][2] ELSE 0,
                      IF bad # <<>> /\ col <= Len(sizes) THEN sizes[col][3] ELSE 0, IF bad # <<>> /\ col <= Len(sizes) THEN sizes[col][4] ELSE 0>>)
          /\ UNCHANGED <<c, ch, col, at, acc, choice, sizes, pos, bad>>
Next == Read \/ ReadDone \/ Look \/ Report
Spec == Init /\ [][Next]_vars
\* delta coding is never beaten by what is chosen
NeverWorse == ph = "look" /\ col <= Len(sizes) /\ K.n <= ProbePoints => \A m \in choice[col] : sizes[col][m + 1] <= sizes[col][1]
=============================================================================
