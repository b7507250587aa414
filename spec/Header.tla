------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* The header of an encoded cloud.  The machine reads the bytes (binary    *)
(* form) or lines (text form) of a header the real writer produced and     *)
(* collects the description they denote; it then compares what the real    *)
(* reader made of the same bytes, how much it consumed, and what it made   *)
(* of damaged headers.                                                     *)
(* Descriptions: [ver, w, h, step, enc, comp, cfg, fields], fields of      *)
(* [name, off, t, res]; 32-bit numbers are <<low, high>> halves, names and *)
(* cfg byte sequences, res <<>> when absent (else the halves of its bits). *)
(* Case: form "bin" / "text" / "yaml"; desc; bytes (bin); lines (text: key,*)
(* value as bytes, value as number halves or <<>>, value as float bits or  *)
(* <<>>); read, back = whether the reader returned, its description; used, len *)
(* = bytes consumed and written; cuts = outcomes of every cut;             *)
(* bads = outcomes of headers with another magic or unsupported version.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, pos, d, left, bad
vars == <<c, ph, pos, d, left, bad>>
K == Cases[c]
Magic == <<67, 76, 79, 85, 68, 73, 78, 73, 95, 86>>
EmptyDesc == [ver |-> 0, w |-> <<0, 0>>, h |-> <<0, 0>>, step |-> <<0, 0>>, enc |-> 0, comp |-> 0, cfg |-> <<>>, fields |-> <<>>]
Init == c \in 1..Len(Cases) /\ pos = 0 /\ d = EmptyDesc /\ left = 0 /\ bad = <<>>
        /\ ph = IF Cases[c].form = "bin" THEN "magic" ELSE "line"
B(i) == K.bytes[pos + i]
U16(i) == B(i) + 256 * B(i + 1)
U32(i) == <<U16(i), U16(i + 2)>>
Room(n) == pos + n <= Len(K.bytes)
Illegal(w) == bad' = <<"Legal", w>> /\ ph' = "back" /\ UNCHANGED <<c, pos, d, left>>
(* ------------------------------- binary -------------------------------- *)
ReadMagic ==
  /\ ph = "magic"
  /\ IF ~Room(28) \/ SubSeq(K.bytes, 1, 10) # Magic THEN Illegal("magic")
     ELSE IF B(11) \notin 48..57 \/ B(12) \notin 48..57 THEN Illegal("version")
     ELSE /\ d' = [d EXCEPT !.ver = (B(11) - 48) * 10 + B(12) - 48, !.w = U32(13), !.h = U32(17), !.step = U32(21), !.enc = B(25), !.comp = B(26)]
          /\ left' = U16(27) /\ pos' = 28 /\ ph' = "field" /\ UNCHANGED <<c, bad>>
ReadField ==
  /\ ph = "field"
  /\ IF left = 0 THEN IF pos = Len(K.bytes) THEN ph' = "cmp" /\ UNCHANGED <<c, pos, d, left, bad>> ELSE Illegal("trailing")
     ELSE IF ~Room(2) THEN Illegal("cut")
     ELSE LET m == U16(1) IN
          IF ~Room(2 + m + 9) THEN Illegal("cut")
          ELSE LET r == <<U16(3 + m + 5), U16(3 + m + 7)>>
                   none == r[2] >= 32768 \/ r = <<0, 0>>      \* not positive
               IN /\ d' = [d EXCEPT !.fields = Append(@, [name |-> SubSeq(K.bytes, pos + 3, pos + 2 + m), off |-> U32(3 + m), t |-> B(3 + m + 4), res |-> IF none THEN <<>> ELSE r])]
                  /\ pos' = pos + 2 + m + 9 /\ left' = left - 1 /\ UNCHANGED <<c, ph, bad>>
(* -------------------------------- text --------------------------------- *)
L(i) == K.lines[pos + i]
Top == <<"version", "width", "height", "point_step", "encoding_opt", "compression_opt">>
EncNames == <<"NONE", "LOSSY", "LOSSLESS">>
CompNames == <<"NONE", "LZ4", "ZSTD">>
TypeNames == <<"INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "INT64", "UINT64">>
Index(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
ReadTop ==
  /\ ph = "line"
  /\ IF Len(K.lines) < 7 THEN Illegal("lines")
     ELSE IF \E i \in 1..6 : L(i).key # Top[i] \/ L(i).ind # 0 THEN Illegal("keys")
     ELSE LET cfg == L(7).key = "encoding_config"
              at == IF cfg THEN 8 ELSE 7
              e == Index(EncNames, L(5).text)
              k == Index(CompNames, L(6).text)
          IN IF e = 0 \/ k = 0 THEN Illegal("option")
             ELSE IF Len(K.lines) < at \/ L(at).key # "fields" \/ L(at).ind # 0 THEN Illegal("fields")
             ELSE IF \E i \in 1..4 : L(i).num = <<>> THEN Illegal("number")
             ELSE /\ d' = [d EXCEPT !.ver = L(1).num[1], !.w = L(2).num, !.h = L(3).num, !.step = L(4).num, !.enc = e - 1, !.comp = k - 1,
                                    !.cfg = IF cfg THEN L(7).val ELSE <<>>]
                  /\ pos' = at /\ ph' = "entry" /\ UNCHANGED <<c, left, bad>>
ReadEntry ==
  /\ ph = "entry"
  /\ IF pos = Len(K.lines) THEN ph' = "cmp" /\ UNCHANGED <<c, pos, d, left, bad>>
     ELSE IF pos + 4 > Len(K.lines) THEN Illegal("cut entry")
     ELSE IF L(1).key # "- name" \/ L(2).key # "offset" \/ L(3).key # "type" \/ L(4).key # "resolution" THEN Illegal("entry keys")
     ELSE LET t == Index(TypeNames, L(3).text) IN
          IF t = 0 \/ L(2).num = <<>> \/ (L(4).text # "null" /\ L(4).float = <<>>) THEN Illegal("entry")
          ELSE /\ d' = [d EXCEPT !.fields = Append(@, [name |-> L(1).val, off |-> L(2).num, t |-> t, res |-> IF L(4).text = "null" THEN <<>> ELSE L(4).float])]
               /\ pos' = pos + 4 /\ UNCHANGED <<c, ph, left, bad>>
(* ------------------------------ comparing ------------------------------ *)
Cmp == /\ ph = "cmp" /\ ph' = "back" /\ bad' = (IF d = K.desc THEN <<>> ELSE <<"Legal", "denotes another description">>)
       /\ UNCHANGED <<c, pos, d, left>>
RoundTrip == K.read /\ K.back = K.desc
Consumed == K.form = "yaml" \/ K.used = K.len
Back ==
  /\ ph = "back" /\ ph' = "done"
  /\ bad' = IF ~RoundTrip THEN <<"RoundTrip", "">> ELSE IF ~Consumed THEN <<"Consumed", "">>
            ELSE IF \E i \in 1..Len(K.cuts) : K.cuts[i] # "throw" THEN <<"Cut", "">>
            ELSE IF \E i \in 1..Len(K.bads) : K.bads[i] # "throw" THEN <<"Unsupported", "">> ELSE bad
  /\ UNCHANGED <<c, pos, d, left>>
FirstBad(s) == IF \E i \in 1..Len(s) : s[i] # "throw" THEN CHOOSE i \in 1..Len(s) : s[i] # "throw" /\ \A j \in 1..i - 1 : s[j] = "throw" ELSE 0
Report == ph = "done" /\ ph' = "end"
          /\ PrintT(<<"D", c, IF bad = <<>> THEN "ok" ELSE bad[1], IF bad = <<>> THEN "" ELSE bad[2], FirstBad(K.cuts), FirstBad(K.bads)>>)
          /\ UNCHANGED <<c, pos, d, left, bad>>
Next == ReadMagic \/ ReadField \/ ReadTop \/ ReadEntry \/ Cmp \/ Back \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
