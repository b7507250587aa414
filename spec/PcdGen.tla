------------------------------- MODULE PcdGen -------------------------------
(***************************************************************************)
(* Sequences of commands for the PCD converter; PCD_MODE, PCD_LEN as for   *)
(* CliGen.  Claimed: only files with the extension .cldn are written, none *)
(* that existed without having been asked for, and none by failing runs.   *)
(***************************************************************************)
EXTENDS PcdCli, TLC, Json, IOUtils, FiniteSets
VARIABLES files, hist, bad, ph
vars == <<files, hist, bad, ph>>
Sim == IOEnv.PCD_MODE = "sim"
MaxLen == atoi(IOEnv.PCD_LEN)
P(d, s, e) == [d |-> d, s |-> s, e |-> e]
R(x) == <<"r", x>>
Dirs0 == {<<"r">>, R("pcds"), R("one"), R("empty"), R("out"), R("work")}
Files0 == (P(R("pcds"), "a", ".pcd") :> "good") @@ (P(R("pcds"), "b", ".pcd") :> "good") @@ (P(R("pcds"), "bad", ".pcd") :> "bad") @@ (P(R("pcds"), "b", ".cldn") :> "old") @@ (P(R("pcds"), "note", ".txt") :> "old")
  @@ (P(R("one"), "x", ".pcd") :> "good") @@ (P(R("one"), "z", ".pcd") :> "good") @@ (P(R("out"), "here", ".cldn") :> "old")
Inputs == {p \in DOMAIN files : p.e # ".cldn"} \cup {P(R("one"), "absent", ".pcd"), P(R("out"), "here", ".cldn")}
Outputs == {P(R("out"), "o", ".cldn"), P(R("out"), "o", ""), P(R("out"), "o", ".v2"), P(<<"r", "new">>, "z", ".cldn"), P(R("out"), "here", ".cldn"), P(R("out"), "here", ".x"), P(R("work"), "w", ".cldn"), P(R("one"), "x", ".pcd")}
Batches == {P(<<"r">>, x, "") : x \in {"pcds", "one", "empty", "absent"}} \cup {P(R("one"), "x", ".pcd")}
Cwds == {R("work"), R("one")}
Zero == [help |-> 0, hasb |-> 0, b |-> P(<<"r">>, "one", ""), hasf |-> 1, f |-> P(R("one"), "x", ".pcd"), hasout |-> 0, out |-> P(R("out"), "o", ".cldn"), yes |-> 0, ans |-> "n", enc |-> "lossy", comp |-> "zstd", res |-> "-", ires |-> "-", cwd |-> R("work")]
Pick(n) == RandomElement(1..n)
RandomCmd ==
  LET k == Pick(10) IN
  [Zero EXCEPT !.help = IF Pick(30) = 1 THEN 1 ELSE 0, !.hasb = IF k <= 3 THEN 1 ELSE 0, !.hasf = IF k = 3 /\ Pick(4) = 1 THEN 1 ELSE IF k <= 3 THEN 0 ELSE IF Pick(20) = 1 THEN 0 ELSE 1, !.b = RandomElement(Batches), !.f = RandomElement(Inputs),
     !.hasout = Pick(2) - 1, !.out = RandomElement(Outputs), !.yes = Pick(2) - 1, !.ans = RandomElement({"", "y", "Y", "n", "x"}), !.enc = IF Pick(15) = 1 THEN RandomElement({"LOSSY", "", "lossles"}) ELSE RandomElement({"lossy", "lossless", "none"}),
     !.comp = IF Pick(15) = 1 THEN RandomElement({"gzip", "", "ZSTD"}) ELSE RandomElement({"lz4", "zstd", "none"}), !.res = RandomElement({"-", "0.01", "0.25", "1", "0.0001"}), !.ires = RandomElement({"-", "0.5", "0.01", "2"}), !.cwd = RandomElement(Cwds)]
All == [help : {0, 1}, hasb : {0, 1}, b : Batches, hasf : {0, 1}, f : {Zero.f, P(R("pcds"), "bad", ".pcd")}, hasout : {0}, out : {Zero.out}, yes : {0, 1}, ans : {"y", "n"}, enc : {"lossy"}, comp : {"none", "gzip"}, res : {"-"}, ires : {"-"}, cwd : {R("work")}]
  \cup [help : {0}, hasb : {0}, b : {Zero.b}, hasf : {1}, f : Inputs, hasout : {0, 1}, out : Outputs, yes : {0, 1}, ans : {"y", "n"}, enc : {"lossy"}, comp : {"zstd"}, res : {"-"}, ires : {"-"}, cwd : Cwds]
  \cup [help : {0}, hasb : {0}, b : {Zero.b}, hasf : {1}, f : {Zero.f, P(R("one"), "z", ".pcd")}, hasout : {0}, out : {Zero.out}, yes : {1}, ans : {"n"}, enc : {"lossy", "lossless", "none", "bad"}, comp : {"zstd", "lz4", "none", "bad"}, res : {"-", "0.01", "1"}, ires : {"-", "0.5"}, cwd : {R("work")}]
Good(x) == x = "good"
Init == files = Files0 /\ hist = <<>> /\ bad = "" /\ ph = "go"
St == [files |-> files, dirs |-> Dirs0]
Step(m) ==
  \E d \in {Done(St, m, Good)} : LET t == {j[2] : j \in d} IN
    /\ files' = [p \in DOMAIN files \cup t |-> IF p \in t THEN "new" ELSE files[p]]
    /\ bad' = IF \E p \in t : p.e # ".cldn" THEN "wrong extension" ELSE IF t \cap DOMAIN files # {} /\ ~Goes(m) THEN "replaced without asking"
              ELSE IF Status(St, m, Good) = {1} /\ t # {} THEN "written by a failing run" ELSE IF Cardinality(t) # Cardinality(d) THEN "twice the same file" ELSE bad
Run == ph = "go" /\ Len(hist) < MaxLen /\ ph' = ph /\
  (IF Sim THEN \E m \in {RandomCmd} : Step(m) /\ hist' = Append(hist, m) ELSE \E m \in All : Step(m) /\ hist' = Append(hist, m))
Emit == ph = "go" /\ Len(hist) = MaxLen /\ ph' = "end" /\ PrintT(<<"S", ToJson(hist)>>) /\ UNCHANGED <<files, hist, bad>>
Next == Run \/ Emit
Spec == Init /\ [][Next]_vars
Sound == bad = ""
=============================================================================
