----------------------------- MODULE RoundTrip ------------------------------
(***************************************************************************)
(* What the codec as a whole promises about one cloud, block by block: the *)
(* cloud goes in, the reader's cloud comes out.  State: the block under    *)
(* comparison and what was found so far.  A case records a real encode and *)
(* a real decode:                                                          *)
(*   real   "ok" or what failed                                            *)
(*   dims   the reader's width, height, point step and field list are the  *)
(*          writer's (1) or not (0)                                        *)
(*   nb     number of blocks                                               *)
(*   ex     per exactly coded field: <<blocks in, blocks out>> (hex)       *)
(*   qu     per quantized field: per block the sequence of cells: the      *)
(*          error in millionths of the resolution beyond the rounding of   *)
(*          the float type, or -1 NaN -> NaN, -2 NaN -> number,            *)
(*          -3 number -> NaN, -4 number -> infinity                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, b, bad
vars == <<c, ph, b, bad>>
K == Cases[c]
Init == c \in 1..Len(Cases) /\ ph = "start" /\ b = 1 /\ bad = {}
Start ==
  /\ ph = "start"
  /\ ph' = IF K.real # "ok" \/ K.dims # 1 THEN "done" ELSE "cmp"
  /\ bad' = IF K.real # "ok" THEN {<<"Accepted", 0, 0>>} ELSE IF K.dims # 1 THEN {<<"Described", 0, 0>>} ELSE {}
  /\ UNCHANGED <<c, b>>
HalfStep(v) == v = -1 \/ (v >= 0 /\ v <= 500000) \/ v \in {-2, -3}  \* NaN changes are reported as such
NaNKept(v) == v \notin {-2, -3}
Compare ==
  /\ ph = "cmp" /\ b <= K.nb
  /\ bad' = bad \cup {<<"Exact", i, b>> : i \in {i \in 1..Len(K.ex) : K.ex[i][1][b] # K.ex[i][2][b]}}
                \cup {<<"HalfStep", i, b>> : i \in {i \in 1..Len(K.qu) : \E j \in 1..Len(K.qu[i][b]) : ~HalfStep(K.qu[i][b][j])}}
                \cup {<<"NaNKept", i, b>> : i \in {i \in 1..Len(K.qu) : \E j \in 1..Len(K.qu[i][b]) : ~NaNKept(K.qu[i][b][j])}}
  /\ b' = b + 1
  /\ UNCHANGED <<c, ph>>
Compared == ph = "cmp" /\ b > K.nb /\ ph' = "done" /\ UNCHANGED <<c, b, bad>>
Kinds == {x[1] : x \in bad}
First(k) == LET s == {x \in bad : x[1] = k} IN IF s = {} THEN <<0, 0>> ELSE LET m == CHOOSE x \in s : \A y \in s : x[3] <= y[3] IN <<m[2], m[3]>>
Report ==
  /\ ph = "done" /\ ph' = "end"
  /\ PrintT(<<"D", c, IF bad = {} THEN "ok" ELSE "bad", "Accepted" \in Kinds, "Described" \in Kinds, "Exact" \in Kinds, "HalfStep" \in Kinds, "NaNKept" \in Kinds,
              First("Exact")[1], First("Exact")[2], First("HalfStep")[1], First("HalfStep")[2], First("NaNKept")[1], First("NaNKept")[2]>>)
  /\ UNCHANGED <<c, b, bad>>
Next == Start \/ Compare \/ Compared \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
