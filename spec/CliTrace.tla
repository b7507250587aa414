------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Runs of cloudini_rosbag_converter one after the other on one file       *)
(* system, judged by Cli.  Case:                                           *)
(*   dirs, files: what there is at first: sequences of directories and of  *)
(*     [p: place, x: content]; contents are numbers as text                *)
(*   runs: sequence of [m: command, code: 0/1, crash: 0/1, files, dirs:    *)
(*     what there is afterwards, src: content the reference conversion was *)
(*     made of, conv: its result or "fails" or "none"]                     *)
(*   kinds: [x, bag, raw, comp] of all contents                            *)
(*   texts: [x, main, lines]: contents of metadata files: lines are        *)
(*     sequences of tokens; main is the token naming the bag's file        *)
(*   bad: the malformed profiles                                           *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n, files, dirs, bad, ph
vars == <<c, n, files, dirs, bad, ph>>
K == Cases[c]
Run == K.runs[n]
Fun(s) == [p \in {s[i].p : i \in 1..Len(s)} |-> LET i == CHOOSE i \in 1..Len(s) : s[i].p = p IN s[i].x]
Set(s) == {s[i] : i \in 1..Len(s)}
BadT(p) == \E i \in 1..Len(K.bad) : K.bad[i] = p
KindT(x) == LET i == CHOOSE i \in 1..Len(K.kinds) : K.kinds[i].x = x IN [bag |-> K.kinds[i].bag, raw |-> K.kinds[i].raw, comp |-> K.kinds[i].comp]
ConvT(x, o) == IF Run.src = x THEN Run.conv ELSE "none"
Old(enc) == IF enc = 1 THEN "type: sensor_msgs/msg/PointCloud2" ELSE "type: point_cloud_interfaces/msg/CompressedPointCloud2"
Other(enc) == Old(1 - enc)
Token(t, main, enc, name) == IF t = Old(enc) THEN Other(enc) ELSE IF t = main THEN name ELSE t
MetaT(x, enc, name) ==
  IF \A i \in 1..Len(K.texts) : K.texts[i].x # x THEN "none"
  ELSE LET k == K.texts[CHOOSE i \in 1..Len(K.texts) : K.texts[i].x = x]
           new == [i \in 1..Len(k.lines) |-> [j \in 1..Len(k.lines[i]) |-> Token(k.lines[i][j], k.main, enc, name)]]
       IN IF \E i \in 1..Len(K.texts) : K.texts[i].lines = new THEN K.texts[CHOOSE i \in 1..Len(K.texts) : K.texts[i].lines = new].x ELSE "unseen"
Init == c \in 1..Len(Cases) /\ n = 1 /\ files = Fun(Cases[c].files) /\ dirs = Set(Cases[c].dirs) /\ bad = "" /\ ph = "go"
Judge(m, st, after) ==
  IF Run.crash = 1 THEN "Crash"
  ELSE LET stop == Stops(st, m, BadT, KindT) IN
  IF stop # {} THEN (IF after # st.files THEN "Changed" ELSE IF Run.code \notin stop THEN "Status" ELSE "")
  ELSE LET src == st.files[Source(st, m).p] t == Target(st, m, Source(st, m).p) IN
    IF ConvT(src, Options(m)) = "none" THEN "NoReference"
    ELSE IF ConvT(src, Options(m)) = "fails" THEN (IF Run.code = 0 THEN "Status" ELSE IF Without(after, t) # Without(st.files, t) THEN "Changed" ELSE "")
    ELSE LET want == Done(st, m, ConvT, MetaT) IN
         IF Run.code # 0 THEN "Refused"
         ELSE IF t \notin DOMAIN after THEN "Missing"
         ELSE IF \E p \in DOMAIN st.files : p \notin DOMAIN after THEN "Lost"
         ELSE IF after[t] # want[t] THEN "Content"
         ELSE IF DOMAIN after # DOMAIN want THEN "Extra"
         ELSE IF \E p \in DOMAIN want : p # t /\ p # MetaIn(t.d) /\ after[p] # want[p] THEN "Changed"
         ELSE IF after # want THEN "Metadata" ELSE ""
Next1 == ph = "go" /\ n <= Len(K.runs) /\ bad = "" /\
  \E after \in {Fun(Run.files)} : \E w \in {Judge(Run.m, [files |-> files, dirs |-> dirs], after)} :
    /\ bad' = w /\ n' = IF w = "" THEN n + 1 ELSE n
    /\ files' = after /\ dirs' = Set(Run.dirs) /\ UNCHANGED <<c, ph>>
Report == ph = "go" /\ (n > Len(K.runs) \/ bad # "") /\ ph' = "end" /\ PrintT(<<"D", c, IF bad = "" THEN "ok" ELSE bad, n>>) /\ UNCHANGED <<c, n, files, dirs, bad>>
Next == Next1 \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
