------------------------------- MODULE CliGen -------------------------------
(***************************************************************************)
(* Sequences of commands for the bag converter, and what is claimed about  *)
(* the specification: a failing run changes nothing, a run never changes   *)
(* what it reads, and a file that exists already is only replaced after    *)
(* having been asked for (or it is the metadata of the output's directory).*)
(* CLI_MODE = "all": every single command of a reduced set;                *)
(* "sim": random sequences of CLI_LEN commands (with -simulate)            *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils, FiniteSets
VARIABLES files, dirs, hist, bad, ph
vars == <<files, dirs, hist, bad, ph>>
Sim == IOEnv.CLI_MODE = "sim"
MaxLen == atoi(IOEnv.CLI_LEN)
P(d, s, e) == [d |-> d, s |-> s, e |-> e]
R(x) == <<"r", x>>
Bag(r, c) == [bag |-> 1, raw |-> r, comp |-> c]
Other == [bag |-> 0, raw |-> 0, comp |-> 0]
Dirs0 == {<<"r">>, R("bag"), R("two"), R("loose"), R("hollow"), R("out"), R("work")}
Files0 == (P(R("bag"), "a", ".mcap") :> Bag(1, 0)) @@ (MetaIn(R("bag")) :> Other) @@ (P(R("two"), "a", ".mcap") :> Bag(1, 0)) @@ (P(R("two"), "b", ".mcap") :> Bag(1, 1)) @@ (MetaIn(R("two")) :> Other)
  @@ (P(R("loose"), "p", ".mcap") :> Bag(1, 0)) @@ (P(R("loose"), "q", ".mcap") :> Bag(0, 1)) @@ (P(R("loose"), "n", ".mcap") :> Bag(0, 0)) @@ (P(R("loose"), "m", ".mcap") :> Bag(1, 1)) @@ (P(R("loose"), "g", ".mcap") :> Other)
  @@ (P(R("loose"), "x", ".txt") :> Other) @@ (MetaIn(R("hollow")) :> Other) @@ (P(R("out"), "here", ".mcap") :> Bag(1, 0))
Inputs == {P(<<"r">>, x, "") : x \in {"bag", "two", "loose", "hollow"}} \cup {p \in DOMAIN files : p.e # ".yaml" /\ p.d # R("two")} \cup {P(R("loose"), "absent", ".mcap"), P(<<"r">>, "bag_encoded", ""), P(<<"r">>, "bag_decoded", "")}
Easy == {P(<<"r">>, "bag", "")} \cup {p \in DOMAIN files : p.e = ".mcap" /\ p.d # R("two") /\ files[p].raw + files[p].comp > 0}
Outputs == {P(R("out"), "o", ".mcap"), P(R("out"), "o", ""), P(R("out"), "o", ".v2"), P(<<"r", "new", "deep">>, "z", ".mcap"), P(R("work"), "w", ".mcap"), P(R("out"), "here", ".mcap"), P(R("bag"), "e", ".mcap"), P(R("bag"), "a", ""), P(R("loose"), "p", ".mcap"), P(R("loose"), "q", "")}
Cwds == {R("work"), R("bag"), R("loose")}
Good == [help |-> 0, junk |-> 0, hasf |-> 1, f |-> P(R("loose"), "p", ".mcap"), enc |-> 1, dec |-> 0, viz |-> 0, yes |-> 0, ans |-> "", method |-> "zstd", prof |-> "none", hasout |-> 0, out |-> P(R("out"), "o", ".mcap"), cwd |-> R("work"), res |-> "-"]
Pick(n) == RandomElement(1..n)
Rarely(x, y) == IF Pick(12) = 1 THEN x ELSE y
RandomCmd ==
  LET i == IF Pick(4) = 1 THEN RandomElement(Inputs) ELSE RandomElement(Easy) dir == IF i \in DOMAIN files THEN (IF files[i].raw = 1 /\ Pick(4) > 1 THEN <<1, 0>> ELSE <<0, 1>>) ELSE IF Pick(3) > 1 THEN <<1, 0>> ELSE <<0, 1>>
      two == IF Pick(20) = 1 THEN <<Pick(2) - 1, Pick(2) - 1>> ELSE dir
  IN [Good EXCEPT !.help = IF Pick(40) = 1 THEN 1 ELSE 0, !.junk = IF Pick(40) = 1 THEN 1 ELSE 0, !.hasf = IF Pick(30) = 1 THEN 0 ELSE 1, !.f = i, !.enc = two[1], !.dec = two[2],
       !.viz = IF two[1] = 1 THEN (IF Pick(4) = 1 THEN 1 ELSE 0) ELSE IF Pick(15) = 1 THEN 1 ELSE 0, !.yes = IF Pick(3) = 1 THEN 1 ELSE 0, !.ans = RandomElement({"", "y", "Y", "n", "x"}),
       !.method = Rarely(RandomElement({"lz4", "ZSTD", ""}), RandomElement({"zstd", "none"})), !.prof = IF two[1] = 1 THEN RandomElement({"none", "none", "text", "long", "file", "lines", IF Pick(4) = 1 THEN "bad" ELSE "text"}) ELSE Rarely("text", "none"),
       !.hasout = IF Pick(2) = 1 THEN 1 ELSE 0, !.out = RandomElement(Outputs), !.cwd = RandomElement(Cwds), !.res = RandomElement({"-", "0.001", "0.01", "0.25", "1"})]
All == [help : {0}, junk : {0}, hasf : {1}, f : Inputs, enc : {0, 1}, dec : {0, 1}, viz : {0}, yes : {0, 1}, ans : {"y", "n"}, method : {"zstd"}, prof : {"none", "text"}, hasout : {0}, out : {Good.out}, cwd : Cwds, res : {"-"}]
  \cup [help : {0}, junk : {0}, hasf : {1}, f : Inputs, enc : {1}, dec : {0}, viz : {0, 1}, yes : {1}, ans : {"n"}, method : {"none"}, prof : {"none"}, hasout : {1}, out : Outputs, cwd : {R("work")}, res : {"0.01"}]
  \cup [help : {0, 1}, junk : {0, 1}, hasf : {0, 1}, f : {P(R("bag"), "a", ".mcap")}, enc : {0, 1}, dec : {0, 1}, viz : {0, 1}, yes : {1}, ans : {"n"}, method : {"zstd", "lz4"}, prof : {"none", "bad"}, hasout : {0}, out : {Good.out}, cwd : {R("work")}, res : {"-"}]
BadS(p) == p = "bad"
ConvS(x, o) == IF o.enc = 1 THEN Bag(0, 1) ELSE Bag(1, 0)
KindS(x) == x
MetaS(x, enc, n) == x
Init == files = Files0 /\ dirs = Dirs0 /\ hist = <<>> /\ bad = "" /\ ph = "go"
St == [files |-> files, dirs |-> dirs]
Up(d) == {SubSeq(d, 1, i) : i \in 1..Len(d)}
Step(m) ==
  LET stop == Stops(St, m, BadS, KindS) IN
  IF stop # {} THEN files' = files /\ dirs' = dirs /\ bad' = bad
  ELSE LET t == Target(St, m, Source(St, m).p) f == Done(St, m, ConvS, MetaS) IN
    /\ files' = f /\ dirs' = dirs \cup Up(t.d)
    /\ bad' = IF f[Source(St, m).p] # files[Source(St, m).p] THEN "the input is changed"
              ELSE IF \E p \in DOMAIN files : f[p] # files[p] /\ ~(p = t /\ Goes(m)) /\ p # MetaIn(t.d) THEN "replaced without asking"
              ELSE IF HasMeta(St, Source(St, m).p) /\ t.d = Source(St, m).p.d THEN "the metadata of the input is replaced"
              ELSE IF Cardinality(DOMAIN f \ DOMAIN files) > 2 THEN "more files" ELSE bad
Run == ph = "go" /\ Len(hist) < MaxLen /\ ph' = ph /\
  (IF Sim THEN \E m \in {RandomCmd} : Step(m) /\ hist' = Append(hist, m) ELSE \E m \in All : Step(m) /\ hist' = Append(hist, m))
Emit == ph = "go" /\ Len(hist) = MaxLen /\ ph' = "end" /\ PrintT(<<"S", ToJson(hist)>>) /\ UNCHANGED <<files, dirs, hist, bad>>
Next == Run \/ Emit
Spec == Init /\ [][Next]_vars
Sound == bad = ""
=============================================================================
