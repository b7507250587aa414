------------------------------ MODULE PcdTrace ------------------------------
(***************************************************************************)
(* Runs of pcd_to_cloudini_converter one after the other, judged by        *)
(* PcdCli.  Case as for CliTrace, with                                     *)
(*   clouds: [x, kind: "pcd" / "cldn" / "none", dims, fields: sequence of  *)
(*     [name, off, t], enc, comp] of all contents (the clouds themselves   *)
(*     are compared by RoundTrip)                                          *)
(***************************************************************************)
EXTENDS PcdCli, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n, files, dirs, bad, ph
vars == <<c, n, files, dirs, bad, ph>>
K == Cases[c]
Run == K.runs[n]
Fun(s) == [p \in {s[i].p : i \in 1..Len(s)} |-> LET i == CHOOSE i \in 1..Len(s) : s[i].p = p IN s[i].x]
Set(s) == {s[i] : i \in 1..Len(s)}
Cloud(x) == K.clouds[CHOOSE i \in 1..Len(K.clouds) : K.clouds[i].x = x]
GoodT(x) == Cloud(x).kind = "pcd"
Converted(x, y, m) == LET a == Cloud(x) b == Cloud(y) IN b.kind = "cldn" /\ b.dims = a.dims /\ b.fields = a.fields /\ b.enc = m.enc /\ b.comp = m.comp
Init == c \in 1..Len(Cases) /\ n = 1 /\ files = Fun(Cases[c].files) /\ dirs = Set(Cases[c].dirs) /\ bad = "" /\ ph = "go"
Judge(m, st, after) ==
  IF Run.crash = 1 THEN "Crash"
  ELSE LET done == Done(st, m, GoodT) t == {j[2] : j \in done} IN
    IF \E p \in DOMAIN st.files : p \notin DOMAIN after THEN "Lost"
    ELSE IF \E p \in DOMAIN st.files \ t : after[p] # st.files[p] THEN "Changed"
    ELSE IF ~(t \subseteq DOMAIN after) THEN "Missing"
    ELSE IF DOMAIN after # DOMAIN st.files \cup t THEN "Extra"
    ELSE IF \E j \in done : ~Converted(st.files[j[1]], after[j[2]], m) THEN "Content"
    ELSE IF Run.code \notin Status(st, m, GoodT) THEN "Status" ELSE ""
Next1 == ph = "go" /\ n <= Len(K.runs) /\ bad = "" /\
  \E after \in {Fun(Run.files)} : \E w \in {Judge(Run.m, [files |-> files, dirs |-> dirs], after)} :
    /\ bad' = w /\ n' = IF w = "" THEN n + 1 ELSE n
    /\ files' = after /\ dirs' = Set(Run.dirs) /\ UNCHANGED <<c, ph>>
Report == ph = "go" /\ (n > Len(K.runs) \/ bad # "") /\ ph' = "end" /\ PrintT(<<"D", c, IF bad = "" THEN "ok" ELSE bad, n>>) /\ UNCHANGED <<c, n, files, dirs, bad>>
Next == Next1 \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
