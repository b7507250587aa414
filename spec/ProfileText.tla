---------------------------- MODULE ProfileText -----------------------------
(***************************************************************************)
(* A resolution profile given as text, "name: number or remove; ...", is   *)
(* read character by character.  The machine builds the profile it         *)
(* denotes, or rejects the text; a converter that was given the same texts *)
(* one after the other must have the same profile, or have thrown.         *)
(* Case: texts = sequence of texts (sequences of character codes);         *)
(*   nums = sequence of <<codes, float bits in hex, or "big">> of the      *)
(*   numbers that occur; real = 0: all were accepted, j: text j was        *)
(*   rejected; got = sequence of <<name codes, bits>>                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, t, i, part, name, val, prof, bad
vars == <<c, t, i, part, name, val, prof, bad>>
K == Cases[c]
Text == K.texts[t]
Colon == 58  Semicolon == 59
Space(x) == x = 32 \/ x \in 9..13
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ Space(s[1]) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))
Digit(x) == x \in 48..57
(* digits with at most one point, then optionally an exponent *)
Scan(q, x) ==
  CASE q = "start" /\ Digit(x) -> "int"
    [] q = "start" /\ x = 46 -> "point"
    [] q = "int" /\ Digit(x) -> "int"
    [] q = "int" /\ x = 46 -> "frac"
    [] q = "point" /\ Digit(x) -> "frac"
    [] q = "frac" /\ Digit(x) -> "frac"
    [] q \in {"int", "frac"} /\ x \in {69, 101} -> "e"
    [] q = "e" /\ x \in {43, 45} -> "sign"
    [] q \in {"e", "sign", "exp"} /\ Digit(x) -> "exp"
    [] OTHER -> "none"
Number(s) == FoldLeft(Scan, "start", s) \in {"int", "frac", "exp"}
Bits(s) == K.nums[CHOOSE j \in 1..Len(K.nums) : K.nums[j][1] = s][2]
Gone == <<114, 101, 109, 111, 118, 101>>
XYZ == <<120, 121, 122>>
Value(s) == IF s = Gone THEN "00000000" ELSE IF ~Number(s) THEN "malformed" ELSE IF Bits(s) = "big" THEN "malformed" ELSE Bits(s)
Set(p, n, v) == {e \in p : e[1] # n} \cup {<<n, v>>}
Assign(p, n, v) == IF n = XYZ THEN Set(Set(Set(p, <<120>>, v), <<121>>, v), <<122>>, v) ELSE Set(p, n, v)
Init == c \in 1..Len(Cases) /\ t = 1 /\ i = 1 /\ part = "name" /\ name = <<>> /\ val = <<>> /\ prof = {} /\ bad = 0
Reading == t <= Len(K.texts) /\ bad = 0
Ends == IF i > Len(Text) THEN TRUE ELSE Text[i] = Semicolon
Name == Reading /\ ~Ends /\ part = "name" /\ i' = i + 1
        /\ (IF Text[i] = Colon THEN part' = "value" /\ UNCHANGED name ELSE name' = Append(name, Text[i]) /\ UNCHANGED part) /\ UNCHANGED <<c, t, val, prof, bad>>
Val == Reading /\ ~Ends /\ part = "value" /\ i' = i + 1
       /\ (IF Text[i] = Colon THEN part' = "more" /\ UNCHANGED val ELSE val' = Append(val, Text[i]) /\ UNCHANGED part) /\ UNCHANGED <<c, t, name, prof, bad>>
More == Reading /\ ~Ends /\ part = "more" /\ i' = i + 1 /\ UNCHANGED <<c, t, part, name, val, prof, bad>>
EndEntry == Reading /\ Ends /\
  \E v \in {IF part = "value" THEN Value(Trim(val)) ELSE "malformed"} :
    IF v = "malformed" THEN bad' = t /\ UNCHANGED <<c, t, i, part, name, val, prof>>
    ELSE /\ prof' = Assign(prof, Trim(name), v) /\ part' = "name" /\ name' = <<>> /\ val' = <<>>
         /\ (IF i > Len(Text) THEN t' = t + 1 /\ i' = 1 ELSE i' = i + 1 /\ UNCHANGED t) /\ UNCHANGED <<c, bad>>
Got == {K.got[j] : j \in 1..Len(K.got)}
Verdict == IF bad # K.real THEN (IF bad = 0 THEN "Rejected" ELSE "Accepted") ELSE IF bad = 0 /\ (Got # prof \/ Len(K.got) # Cardinality(prof)) THEN "Profile" ELSE "ok"
Report == ~Reading /\ part # "end" /\ part' = "end" /\ PrintT(<<"D", c, Verdict, bad>>) /\ UNCHANGED <<c, t, i, name, val, prof, bad>>
Next == Name \/ Val \/ More \/ EndEntry \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
