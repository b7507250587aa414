------------------------------ MODULE CutTrace ------------------------------
(***************************************************************************)
(* Runs of mcap_cutter and mcap_header_inspector, judged by CutCli.  Case  *)
(* as for CliTrace, with                                                   *)
(*   bags: [x, bag: as in CutCli] of all contents                          *)
(*   descs: [x, ok: 0/1, d] of the contents with a compressed message:     *)
(*     what its first one's header says, if it can be read                 *)
(*   runs: also said: what the inspector printed                           *)
(***************************************************************************)
EXTENDS CutCli, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n, files, dirs, bad, ph
vars == <<c, n, files, dirs, bad, ph>>
K == Cases[c]
Run == K.runs[n]
Fun(s) == [p \in {s[i].p : i \in 1..Len(s)} |-> LET i == CHOOSE i \in 1..Len(s) : s[i].p = p IN s[i].x]
Set(s) == {s[i] : i \in 1..Len(s)}
BagT(x) == K.bags[CHOOSE i \in 1..Len(K.bags) : K.bags[i].x = x].bag
Desc(x) == K.descs[CHOOSE i \in 1..Len(K.descs) : K.descs[i].x = x]
Init == c \in 1..Len(Cases) /\ n = 1 /\ files = Fun(Cases[c].files) /\ dirs = Set(Cases[c].dirs) /\ bad = "" /\ ph = "go"
Judge(m, st, after) ==
  IF Run.crash = 1 THEN "Crash"
  ELSE LET stop == Stops(st, m, BagT) IN
  IF stop # {} THEN (IF after # st.files THEN "Changed" ELSE IF Run.code \notin stop THEN "Status"
    ELSE IF ~Describes(st, m, BagT) THEN ""
    ELSE LET d == Desc(st.files[m.f]) IN IF d.ok = 0 THEN (IF Run.code = 0 THEN "Status" ELSE "") ELSE IF Run.code = 1 THEN "Status" ELSE IF Run.said # d.d THEN "Description" ELSE "")
  ELSE LET t == Target(m) IN
    IF Run.code # 0 THEN "Refused"
    ELSE IF t \notin DOMAIN after THEN "Missing"
    ELSE IF \E p \in DOMAIN st.files : p \notin DOMAIN after THEN "Lost"
    ELSE IF DOMAIN after # DOMAIN st.files \cup {t} THEN "Extra"
    ELSE IF \E p \in DOMAIN st.files : p # t /\ after[p] # st.files[p] THEN "Changed"
    ELSE IF ~IsCut(BagT(st.files[m.f]), BagT(after[t]), m.n) THEN "Content" ELSE ""
Next1 == ph = "go" /\ n <= Len(K.runs) /\ bad = "" /\
  \E after \in {Fun(Run.files)} : \E w \in {Judge(Run.m, [files |-> files, dirs |-> dirs], after)} :
    /\ bad' = w /\ n' = IF w = "" THEN n + 1 ELSE n
    /\ files' = after /\ dirs' = Set(Run.dirs) /\ UNCHANGED <<c, ph>>
Report == ph = "go" /\ (n > Len(K.runs) \/ bad # "") /\ ph' = "end" /\ PrintT(<<"D", c, IF bad = "" THEN "ok" ELSE bad, n>>) /\ UNCHANGED <<c, n, files, dirs, bad>>
Next == Next1 \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
