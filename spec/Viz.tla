-------------------------------- MODULE Viz ---------------------------------
(***************************************************************************)
(* Preprocessing for visualization: one point after the other is taken;    *)
(* points with a coordinate that is not a number or infinite are dropped,  *)
(* and so are those whose voxel is already occupied.                       *)
(* Case: fields [off, t, res] (res: bits in hex or "-"), step, pts =       *)
(*   sequence of [v |-> voxel (or "" if a coordinate is not finite),       *)
(*   b |-> bytes]; pos: resolution of the first field positive and finite; *)
(*   w, h, row: before; got = [w, h, row, n (bytes of data), pts (bytes of *)
(*   each point), res (of each field), same (views the original data)],    *)
(*   real = "ok" or what failed                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
F32 == 7  F64 == 8
Microsecond == "358637bd"
VARIABLES c, i, seen, out, ph
vars == <<c, i, seen, out, ph>>
K == Cases[c]
Triple(fs) == /\ Len(fs) >= 3 /\ \A j \in 1..3 : fs[j].t = F32 /\ fs[j].res # "-" /\ fs[j].res = fs[1].res
              /\ fs[2].off = fs[1].off + 4 /\ fs[3].off = fs[1].off + 8 /\ fs[1].off + 12 <= K.step /\ K.pos
Applies == Triple(K.fields) /\ Len(K.pts) > 0
Init == c \in 1..Len(Cases) /\ i = 1 /\ seen = {} /\ out = <<>> /\ ph = "go"
Take == ph = "go" /\ Applies /\ i <= Len(K.pts) /\ i' = i + 1 /\ UNCHANGED <<c, ph>>
Drop == Take /\ (K.pts[i].v = "" \/ K.pts[i].v \in seen) /\ UNCHANGED <<seen, out>>
Keep == Take /\ K.pts[i].v # "" /\ K.pts[i].v \notin seen /\ seen' = seen \cup {K.pts[i].v} /\ out' = Append(out, i)
ResAfter(f) == IF Applies /\ f.t = F64 /\ f.res = "-" THEN Microsecond ELSE f.res
Verdict ==
  LET g == K.got n == Len(out) IN
  IF K.real # "ok" THEN "Accepted"
  ELSE IF g.res # [j \in 1..Len(K.fields) |-> ResAfter(K.fields[j])] THEN "Resolution"
  ELSE IF ~Applies THEN (IF g.w = K.w /\ g.h = K.h /\ g.row = K.row /\ g.same THEN "ok" ELSE "Touched")
  ELSE IF g.w # n \/ g.h # 1 \/ g.row # n * K.step \/ g.n # n * K.step THEN "Dimensions"
  ELSE IF \E j \in 1..n : g.pts[j] # K.pts[out[j]].b THEN "Survivors" ELSE "ok"
Report == ph = "go" /\ (~Applies \/ i > Len(K.pts)) /\ ph' = "end" /\ PrintT(<<"D", c, Verdict, Len(out)>>) /\ UNCHANGED <<c, i, seen, out>>
Next == Drop \/ Keep \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
