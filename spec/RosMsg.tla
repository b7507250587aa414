------------------------------- MODULE RosMsg -------------------------------
(***************************************************************************)
(* A sensor_msgs/PointCloud2 message is compressed to a                    *)
(* CompressedPointCloud2 message and restored.  The machine lays out each  *)
(* of the three messages from the description of the cloud and compares    *)
(* them with the recorded ones, except for the bytes of the point data and *)
(* of the payload, of which only the lengths matter here (their contents   *)
(* are judged by RoundTrip).                                               *)
(* Case: msg = [sec, nsec, frame, h, w, fields, step, row, dense] (sec and *)
(*   nsec as bytes; fields of [name, off, t, count]: those of the original *)
(*   message); kept = positions of the fields that are not removed;        *)
(*   real = "ok" or the step that failed; raw, comp, rest = the messages,  *)
(*   each [head (first bytes), tail (last 40 bytes), total (length)];      *)
(*   same = 1: the data restored are those the payload denotes;            *)
(*   big = 1: the points are announced big-endian, which has to be refused *)
(*   any = 1: also a message without points has a payload                    *)
(*   def = <<w, h, step, encoding, compression>> of the default encoding   *)
(*   description of the message                                            *)
(*   rcuts, ccuts = sequences of <<length of a cut raw / compressed        *)
(*   message, outcome>> ("t" threw)                                        *)
(***************************************************************************)
EXTENDS CdrBytes, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, buf, bad
vars == <<c, ph, buf, bad>>
K == Cases[c]
M == K.msg
Byte(x) == Raw(<<x>>)
FieldAtoms(f) == StrAtoms(f.name) \o <<U32(f.off), Byte(f.t), U32(f.count)>>
Prefix(fields, row) ==
  PlaceAll(<<0, 1, 0, 0>>,
    <<Num(M.sec), Num(M.nsec)>> \o StrAtoms(M.frame) \o <<U32(M.h), U32(M.w), U32(Len(fields))>>
    \o FlattenSeq([j \in 1..Len(fields) |-> FieldAtoms(fields[j])]) \o <<Byte(0), U32(M.step), U32(row)>>, 8, FALSE)
Kept == [j \in 1..Len(K.kept) |-> M.fields[K.kept[j]]]
Packed == M.w * M.step                    \* bytes of a row without padding
Format == <<99, 108, 111, 117, 100, 105, 110, 105>>
(* does message m consist of prefix p, a block of n bytes, and what follows it?  n < 0: any length, but the same in the length field *)
LengthAt(m, p) == LET b == SubSeq(m.head, Len(p) + 1, Len(p) + 4) IN b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
(* what follows the block, given the position of its end *)
Rest(end, compressed) ==
  LET d == <<M.dense>>
      at == end + 1 - 4
  IN IF compressed THEN d \o Zeros(PadTo(at, 4, 8)) \o <<9, 0, 0, 0>> \o Format \o <<0>> ELSE d
Fits(m, p, n, compressed) ==
  /\ Len(m.head) >= Len(p) + 4
  /\ SubSeq(m.head, 1, Len(p)) = p
  /\ m.head[Len(p) + 4] < 128
  /\ LET l == LengthAt(m, p)
         r == Rest(Len(p) + 4 + l, compressed)
     IN /\ n < 0 \/ l = n
        /\ m.total = Len(p) + 4 + l + Len(r)
        /\ SubSeq(m.tail, Len(m.tail) - Len(r) + 1, Len(m.tail)) = r
DenseEnd(m, p) == Len(p) + 4 + LengthAt(m, p) + 1

Init == c \in 1..Len(Cases) /\ ph = "raw" /\ buf = <<>> /\ bad = ""
Stop(w) == bad' = w /\ ph' = "done" /\ UNCHANGED <<c, buf>>
(* the recorded input is the message described *)
CheckRaw == /\ ph = "raw" /\ \E p \in {Prefix(M.fields, M.row)} : Assert(K.big = 1 \/ Fits(K.raw, p, M.row * M.h, FALSE), <<"glue: the input is not the message", c>>)
            /\ IF K.big = 1 THEN Stop(IF K.real = "ok" THEN "BigEndian" ELSE "")
               ELSE IF K.real # "ok" THEN Stop("Accepted")
               ELSE IF K.def # <<M.w, M.h, M.step, 1, 2>> THEN Stop("Default")
               ELSE IF \E j \in 1..Len(K.rcuts) : K.rcuts[j][1] < K.raw.total /\ K.rcuts[j][2] # "t" THEN Stop("CutRaw")
               ELSE ph' = "comp" /\ buf' = Prefix(Kept, Packed) /\ UNCHANGED <<c, bad>>
CheckComp == /\ ph = "comp"
             /\ IF ~Fits(K.comp, buf, IF K.any = 0 /\ (M.w * M.h = 0 \/ M.step = 0) THEN 0 ELSE -1, TRUE) THEN Stop("Compressed")
                ELSE IF \E j \in 1..Len(K.ccuts) : K.ccuts[j][1] < DenseEnd(K.comp, buf) /\ K.ccuts[j][2] # "t" THEN Stop("CutComp")
                ELSE ph' = "rest" /\ UNCHANGED <<c, buf, bad>>
CheckRest == /\ ph = "rest"
             /\ IF ~Fits(K.rest, buf, Packed * M.h, FALSE) THEN Stop("Restored") ELSE IF K.same # 1 THEN Stop("Payload") ELSE Stop("")
Report == ph = "done" /\ ph' = "end" /\ PrintT(<<"D", c, IF bad = "" THEN "ok" ELSE bad>>) /\ UNCHANGED <<c, buf, bad>>
Next == CheckRaw \/ CheckComp \/ CheckRest \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
