------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* A payload as a sequence of length-prefixed chunks.                      *)
(*                                                                         *)
(* The specification has two parts.  The writer: frames are laid down one  *)
(* after the other, each for the next ChunkPoints points.  The editor: any *)
(* number of edits (drop, move, repeat a chunk, cut or extend the bytes,   *)
(* declare another number of points) is applied to the finished payload,   *)
(* and a reader then either gets the points of the chunks that are there   *)
(* or refuses.  FramesGen enumerates the edits; here recorded runs of the  *)
(* real encoder and decoder are replayed against the model.                *)
(*                                                                         *)
(* Case: n points, step, chunk sizes as found in the bytes (`sizes`, read  *)
(* from `head` 4-byte words), `len` bytes in total, `ref` the contents of  *)
(* each chunk of the original, and `ops`: for every edited payload the     *)
(* chunk ids it holds, `cut`/`ext` bytes removed or added at its end,      *)
(* `declared` points, and the outcome: real "ok"/"throw", got (contents of *)
(* each block of the result).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
ChunkPoints == 32768
VARIABLES c, ph, k, at, left, bad
vars == <<c, ph, k, at, left, bad>>
K == Cases[c]
Blocks(n) == (n + ChunkPoints - 1) \div ChunkPoints
PointsAt(n, j) == IF j < Blocks(n) THEN ChunkPoints ELSE n - ChunkPoints * (Blocks(n) - 1)
Init == c \in 1..Len(Cases) /\ ph = "walk" /\ k = 0 /\ at = 0 /\ left = Cases[c].n /\ bad = <<>>

(* the writer's frames *)
Walk ==
  /\ ph = "walk"
  /\ IF left > 0 THEN
       IF k + 1 > Len(K.sizes) THEN bad' = <<"Tiled", k, at>> /\ ph' = "done" /\ UNCHANGED <<k, at, left>>
       ELSE IF at + 4 + K.sizes[k + 1] > K.len THEN bad' = <<"Tiled", k, at>> /\ ph' = "done" /\ UNCHANGED <<k, at, left>>
       ELSE /\ at' = at + 4 + K.sizes[k + 1] /\ k' = k + 1
            /\ left' = left - (IF left > ChunkPoints THEN ChunkPoints ELSE left)
            /\ UNCHANGED <<ph, bad>>
     ELSE IF at # K.len THEN bad' = <<"Tiled", k, at>> /\ ph' = "done" /\ UNCHANGED <<k, at, left>>
     ELSE ph' = "ops" /\ k' = 1 /\ UNCHANGED <<at, left, bad>>
  /\ UNCHANGED c

(* the reader of an edited payload *)
Whole(o) == o.cut = 0 /\ o.ext = 0
Fits(o) == /\ Whole(o)
           /\ Len(o.arr) = Blocks(o.declared)
           /\ \A j \in 1..Len(o.arr) : PointsAt(o.declared, j) = PointsAt(K.n, o.arr[j])
MustThrow(o) == ~Whole(o) \/ Len(o.arr) # Blocks(o.declared)
Verdict(o) ==
  IF Fits(o) THEN IF o.real # "ok" THEN <<"Independent", "refused">>
                  ELSE IF o.got # [j \in 1..Len(o.arr) |-> K.ref[o.arr[j]]] THEN <<"Independent", "other points">>
                  ELSE <<>>
  ELSE IF MustThrow(o) /\ o.real = "ok" THEN <<(IF Whole(o) THEN "Redeclared" ELSE IF o.cut > 0 THEN "Cut" ELSE "Extended"), "accepted">>
  ELSE <<>>
Op ==
  /\ ph = "ops"
  /\ IF k > Len(K.ops) THEN ph' = "done" /\ UNCHANGED <<k, bad>>
     ELSE \E v \in {Verdict(K.ops[k])} :
            IF v = <<>> THEN k' = k + 1 /\ UNCHANGED <<ph, bad>>
            ELSE bad' = <<v[1], k, v[2]>> /\ ph' = "done" /\ UNCHANGED k
  /\ UNCHANGED <<c, at, left>>
Report == ph = "done" /\ ph' = "end"
          /\ PrintT(<<"D", c, IF bad = <<>> THEN "ok" ELSE bad[1], IF bad = <<>> THEN 0 ELSE bad[2], IF bad = <<>> THEN 0 ELSE bad[3]>>)
          /\ UNCHANGED <<c, k, at, left, bad>>
Next == Walk \/ Op \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
