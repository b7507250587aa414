------------------------------- MODULE CutGen -------------------------------
(***************************************************************************)
(* Sequences of commands for the cutter and the inspector; CUT_MODE,       *)
(* CUT_LEN as for CliGen.  Claimed: cutting twice is cutting once with the *)
(* smaller number, and a file that was cut contains its own cut.           *)
(***************************************************************************)
EXTENDS CutCli, TLC, Json, IOUtils
VARIABLES files, hist, bad, ph
vars == <<files, hist, bad, ph>>
Sim == IOEnv.CUT_MODE = "sim"
MaxLen == atoi(IOEnv.CUT_LEN)
P(d, s, e) == [d |-> d, s |-> s, e |-> e]
R(x) == <<"r", x>>
Dirs0 == {<<"r">>, R("in"), R("out"), R("work")}
Ch(d, k) == [d |-> d, kind |-> k]
Ms(c, d) == [ch |-> c, d |-> d]
Abstract == {[bag |-> 1, ch |-> <<Ch("t1", "raw"), Ch("t1", "raw"), Ch("t2", "other")>>, msgs |-> <<Ms(1, "a"), Ms(2, "b"), Ms(3, "c"), Ms(1, "d"), Ms(1, "e"), Ms(2, "f")>>]}
NoBag == [bag |-> 0, ch |-> <<>>, msgs |-> <<>>]
B1 == CHOOSE b \in Abstract : TRUE
Files0 == (P(R("in"), "p", ".mcap") :> B1) @@ (P(R("in"), "q", ".mcap") :> [B1 EXCEPT !.ch = <<Ch("t", "comp"), Ch("t", "comp"), Ch("t", "other")>>]) @@ (P(R("in"), "n", ".mcap") :> [B1 EXCEPT !.ch = <<Ch("t", "other"), Ch("t", "other"), Ch("t", "other")>>])
  @@ (P(R("in"), "m", ".mcap") :> [B1 EXCEPT !.ch = <<Ch("t", "comp"), Ch("t", "raw"), Ch("t", "other")>>]) @@ (P(R("in"), "g", ".mcap") :> NoBag) @@ (P(R("in"), "x", ".txt") :> NoBag) @@ (P(R("out"), "here", ".mcap") :> B1)
Inputs == {p \in DOMAIN files : p.d # R("work")} \cup {P(R("in"), "absent", ".mcap")}
Easy == {p \in DOMAIN files : p.e = ".mcap"}
Outputs == {P(R("out"), "o", ".mcap"), P(R("out"), "o", ""), P(R("out"), "o", ".v2"), P(<<"r", "new">>, "z", ".mcap"), P(R("out"), "here", ".mcap"), P(R("in"), "p", ".mcap"), P(R("in"), "m", "")}
Cwds == {R("work"), R("in")}
Zero == [insp |-> 0, help |-> 0, hasf |-> 1, f |-> P(R("in"), "p", ".mcap"), hasout |-> 0, out |-> P(R("out"), "o", ".mcap"), n |-> 1000, cwd |-> R("work")]
Pick(k) == RandomElement(1..k)
RandomCmd == [Zero EXCEPT !.insp = IF Pick(3) = 1 THEN 1 ELSE 0, !.help = IF Pick(30) = 1 THEN 1 ELSE 0, !.hasf = IF Pick(25) = 1 THEN 0 ELSE 1, !.f = IF Pick(4) = 1 THEN RandomElement(Inputs) ELSE RandomElement(Easy),
   !.hasout = Pick(2) - 1, !.out = RandomElement(Outputs), !.n = IF Pick(3) = 1 THEN 1000 ELSE IF Pick(12) = 1 THEN RandomElement({0, -1}) ELSE Pick(5), !.cwd = RandomElement(Cwds)]
All == [insp : {0}, help : {0}, hasf : {1}, f : Inputs, hasout : {0, 1}, out : Outputs, n : {1, 2, 1000}, cwd : Cwds]
  \cup [insp : {0, 1}, help : {0, 1}, hasf : {0, 1}, f : Inputs, hasout : {0}, out : {Zero.out}, n : {-1, 0, 3}, cwd : {R("work")}]
Id(x) == x
Init == files = Files0 /\ hist = <<>> /\ bad = "" /\ ph = "go"
St == [files |-> files, dirs |-> Dirs0]
Cut(b, n) == LET k == Kept(b, n, 1) c == SelectSeq([i \in 1..Len(b.ch) |-> i], LAMBDA i : i \in Clouds(b, "raw")) IN
  [bag |-> 1, ch |-> [i \in 1..Len(c) |-> b.ch[c[i]]], msgs |-> [j \in 1..Len(k) |-> [ch |-> CHOOSE i \in 1..Len(c) : c[i] = b.msgs[k[j]].ch, d |-> b.msgs[k[j]].d]]]
Min(a, b) == IF a < b THEN a ELSE b
Step(m) ==
  IF Stops(St, m, Id) # {} THEN files' = files /\ bad' = bad
  ELSE \E b \in {files[m.f]} : \E y \in {Cut(b, m.n)} : \E t \in {Target(m)} :
    /\ files' = [p \in DOMAIN files \cup {t} |-> IF p = t THEN y ELSE files[p]]
    /\ bad' = IF ~IsCut(b, y, m.n) THEN "not a cut" ELSE IF ~IsCut(y, y, m.n) \/ \E n \in 1..4 : Cut(y, n) # Cut(b, Min(n, m.n)) THEN "cutting twice"
              ELSE IF Len(y.msgs) > m.n * Cardinality(Clouds(b, "raw")) THEN "too many" ELSE IF files'[m.f] # files[m.f] THEN "the input is changed" ELSE bad
Run == ph = "go" /\ Len(hist) < MaxLen /\ ph' = ph /\
  (IF Sim THEN \E m \in {RandomCmd} : Step(m) /\ hist' = Append(hist, m) ELSE \E m \in All : Step(m) /\ hist' = Append(hist, m))
Emit == ph = "go" /\ Len(hist) = MaxLen /\ ph' = "end" /\ PrintT(<<"S", ToJson(hist)>>) /\ UNCHANGED <<files, hist, bad>>
Next == Run \/ Emit
Spec == Init /\ [][Next]_vars
Sound == bad = ""
=============================================================================
