-------------------------------- MODULE Pcl ---------------------------------
(***************************************************************************)
(* Conversions between PCL clouds and the encoded form.  A machine walks   *)
(* over the fields of one side and decides what becomes of each; the list  *)
(* it builds is compared with what the real code produced.                 *)
(* Case (kind):                                                            *)
(*  "enc"   a generic cloud is encoded: fields [name, off, dt, count] (dt: *)
(*          PCL's datatype), dims <<w, h, step>>, res (bits in hex, "-" if *)
(*          the resolution is not positive);  got: the fields [name, off,  *)
(*          t, res] and gdims of the header written, real                  *)
(*  "dec"   a stream is decoded into a generic cloud: fields [name, off,   *)
(*          t, res], dims;  got: fields [name, off, dt, count], gdims <<w, *)
(*          h, step, row step, big endian, bytes of data>>                 *)
(*  "typed" a stream is decoded into points of some type: fields as in     *)
(*          "dec", dest: fields [name, off, t] of the type; gdims <<w, h>> *)
(*          and chg: offsets within the point where any byte changed, got: *)
(*          positions of the fields found at their places                  *)
(*  "pcd"   lines of a PCD header: sequence of sequences of words (without *)
(*          comments);  got: sequence of <<name, type>>                    *)
(* real = "ok" or what failed                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, out, ph, err, bad
vars == <<c, i, out, ph, err, bad>>
K == Cases[c]
Size(t) == CASE t \in {1, 2} -> 1 [] t \in {3, 4} -> 2 [] t \in {5, 6, 7} -> 4 [] t \in {8, 9, 10} -> 8 [] OTHER -> 0
F32 == 7
Init == c \in 1..Len(Cases) /\ i = 1 /\ out = <<>> /\ ph = "go" /\ err = FALSE /\ bad = ""
Go(kind, seq) == ph = "go" /\ K.kind = kind /\ i <= Len(seq) /\ i' = i + 1 /\ UNCHANGED <<c, ph, bad>>
Fld == K.fields[i]
(* generic cloud -> header *)
EncField == Go("enc", K.fields) /\ Fld.dt \in 1..10 /\ UNCHANGED err
            /\ out' = Append(out, [name |-> Fld.name, off |-> Fld.off, t |-> Fld.dt, res |-> IF Fld.dt = F32 THEN K.res ELSE "-"])
EncUnknown == Go("enc", K.fields) /\ Fld.dt \notin 1..10 /\ err' = TRUE /\ UNCHANGED out
(* header -> generic cloud *)
DecField == Go("dec", K.fields) /\ UNCHANGED err /\ out' = Append(out, [name |-> Fld.name, off |-> Fld.off, dt |-> Fld.t, count |-> 1])
(* header -> points of a type *)
Dest == {j \in 1..Len(K.dest) : K.dest[j].name = Fld.name}
D == K.dest[CHOOSE j \in Dest : TRUE]
Common == Go("typed", K.fields) /\ Dest # {} /\ (IF D.t = Fld.t THEN err' = err ELSE err' = TRUE) /\ out' = Append(out, <<i, D.off, Size(D.t)>>)
Lacking == Go("typed", K.fields) /\ Dest = {} /\ UNCHANGED <<out, err>>
Written == UNION {out[j][2]..(out[j][2] + out[j][3] - 1) : j \in 1..Len(out)}
(* PCD header: out[1..3] = what FIELDS, SIZE and TYPE list *)
Line == K.lines[i]
Listed(key) == LET s == {j \in 1..Len(K.lines) : Len(K.lines[j]) > 0 /\ K.lines[j][1] = key} IN IF s = {} THEN <<>> ELSE Tail(K.lines[CHOOSE j \in s : TRUE])
PcdType(k, n) == CASE <<k, n>> = <<"I", "1">> -> 1 [] <<k, n>> = <<"U", "1">> -> 2 [] <<k, n>> = <<"I", "2">> -> 3 [] <<k, n>> = <<"U", "2">> -> 4 [] <<k, n>> = <<"I", "4">> -> 5 [] <<k, n>> = <<"U", "4">> -> 6
                   [] <<k, n>> = <<"F", "4">> -> 7 [] <<k, n>> = <<"F", "8">> -> 8 [] <<k, n>> = <<"I", "8">> -> 9 [] <<k, n>> = <<"U", "8">> -> 10 [] OTHER -> 0
Names == Listed("FIELDS")
PcdField == Go("pcd", Names) /\ Len(Listed("SIZE")) = Len(Names) /\ Len(Listed("TYPE")) = Len(Names) /\ UNCHANGED err
            /\ out' = Append(out, <<Names[i], PcdType(Listed("TYPE")[i], Listed("SIZE")[i])>>)
PcdUneven == ph = "go" /\ K.kind = "pcd" /\ ~err /\ (Len(Listed("SIZE")) # Len(Names) \/ Len(Listed("TYPE")) # Len(Names)) /\ err' = TRUE /\ UNCHANGED <<c, i, out, ph, bad>>

Steps == IF K.kind = "pcd" THEN Len(Names) ELSE Len(K.fields)
GoOn == IF K.kind = "pcd" /\ (Len(Listed("SIZE")) # Len(Names) \/ Len(Listed("TYPE")) # Len(Names)) THEN ~err ELSE i <= Steps
Pairs(s) == {s[j] : j \in 1..Len(s)}
Verdict ==
  IF err THEN (IF K.real = "ok" THEN "NotRefused" ELSE "ok")
  ELSE IF K.real # "ok" THEN "Accepted"
  ELSE CASE K.kind = "enc" -> IF K.gdims # K.dims THEN "Dimensions" ELSE IF K.got # out THEN "Fields" ELSE "ok"
         [] K.kind = "dec" -> IF K.gdims # <<K.dims[1], K.dims[2], K.dims[3], K.dims[1] * K.dims[3], 0, K.dims[1] * K.dims[2] * K.dims[3]>> THEN "Dimensions" ELSE IF K.got # out THEN "Fields" ELSE "ok"
         [] K.kind = "typed" -> IF K.gdims # K.dims THEN "Dimensions" ELSE IF ~(Pairs(K.chg) \subseteq Written) THEN "Touched" ELSE "ok"
         [] K.kind = "pcd" -> IF Pairs(K.got) # Pairs(out) THEN "Fields" ELSE "ok"
Report == ph = "go" /\ ~GoOn /\ ph' = "end" /\ bad' = Verdict /\ PrintT(<<"D", c, Verdict>>) /\ UNCHANGED <<c, i, out, err>>
Next == EncField \/ EncUnknown \/ DecField \/ Common \/ Lacking \/ PcdField \/ PcdUneven \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
