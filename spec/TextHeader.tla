----------------------------- MODULE TextHeader -----------------------------
(***************************************************************************)
(* A text header that may have been written by hand or by another program. *)
(* The machine reads it line by line: keys at the left margin in any       *)
(* order, a list of fields at any indentation whose items have their keys  *)
(* in any order, comments, blank lines, blanks around keys and values,     *)
(* keys nobody knows.  What has been read is the description, or nothing   *)
(* where a key is missing or a value is none; verdict "open" where the     *)
(* subset of YAML that is used says nothing.                               *)
(* Case: lines (character codes), floats = sequence of <<codes, halves of  *)
(*   the float's bits>> (the resolutions that are numbers), magic = the    *)
(*   version in front of the text (0: the text was given alone),           *)
(*   read = the reader returned, back = its description, numbers as        *)
(*   decimal digits; used, len = bytes consumed and written                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, ln, ph, top, items, li, col
vars == <<c, ln, ph, top, items, li, col>>
K == Cases[c]
Init == /\ c \in 1..Len(Cases) /\ ln = 1 /\ ph = "top" /\ items = <<>> /\ li = -1 /\ col = -1
        /\ top = [k \in {} |-> <<>>]

(* ------------------------------- characters ------------------------------ *)
Space(x) == x = 32 \/ x \in 9..13
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ Space(s[1]) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))
First(s, x) == IF \E j \in 1..Len(s) : s[j] = x THEN CHOOSE j \in 1..Len(s) : s[j] = x /\ \A k \in 1..(j - 1) : s[k] # x ELSE 0
Uncommented(s) == LET p == First(s, 35) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
RECURSIVE Margin(_)
Margin(s) == IF s # <<>> /\ s[1] = 32 THEN 1 + Margin(Tail(s)) ELSE 0
Key(s) == LET p == First(s, 58) IN IF p = 0 THEN <<>> ELSE Trim(SubSeq(s, 1, p - 1))
Val(s) == LET p == First(s, 58) IN IF p = 0 THEN <<>> ELSE Trim(SubSeq(s, p + 1, Len(s)))

(* --------------------------------- names --------------------------------- *)
kVersion == <<118, 101, 114, 115, 105, 111, 110>>
kWidth == <<119, 105, 100, 116, 104>>
kHeight == <<104, 101, 105, 103, 104, 116>>
kStep == <<112, 111, 105, 110, 116, 95, 115, 116, 101, 112>>
kEnc == <<101, 110, 99, 111, 100, 105, 110, 103, 95, 111, 112, 116>>
kComp == <<99, 111, 109, 112, 114, 101, 115, 115, 105, 111, 110, 95, 111, 112, 116>>
kCfg == <<101, 110, 99, 111, 100, 105, 110, 103, 95, 99, 111, 110, 102, 105, 103>>
kFields == <<102, 105, 101, 108, 100, 115>>
kName == <<110, 97, 109, 101>>
kOffset == <<111, 102, 102, 115, 101, 116>>
kType == <<116, 121, 112, 101>>
kRes == <<114, 101, 115, 111, 108, 117, 116, 105, 111, 110>>
vNull == <<110, 117, 108, 108>>
EmptyList == <<91, 93>>
nNONE == <<78, 79, 78, 69>>
Encs == << nNONE, <<76, 79, 83, 83, 89>>, <<76, 79, 83, 83, 76, 69, 83, 83>> >>
Comps == << nNONE, <<76, 90, 52>>, <<90, 83, 84, 68>> >>
INT == <<73, 78, 84>>
U == <<85>>
FLOAT == <<70, 76, 79, 65, 84>>
Types == << INT \o <<56>>, U \o INT \o <<56>>, INT \o <<49, 54>>, U \o INT \o <<49, 54>>, INT \o <<51, 50>>, U \o INT \o <<51, 50>>,
            FLOAT \o <<51, 50>>, FLOAT \o <<54, 52>>, INT \o <<54, 52>>, U \o INT \o <<54, 52>> >>

(* --------------------------------- lines --------------------------------- *)
L == K.lines[ln]
Body == Trim(Uncommented(L))
Dash == Body # <<>> /\ Body[1] = 45 /\ (Len(Body) = 1 \/ Body[2] = 32)
Rest == TrimLeft(Tail(Body))
\* where the first key of an item stands
Column == Margin(L) + Len(Body) - Len(Rest)
Has(f, k) == k \in DOMAIN f
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Known == {kVersion, kWidth, kHeight, kStep, kEnc, kComp, kCfg, kFields}
Go == ph \in {"top", "list"} /\ ln <= Len(K.lines)
Open == ph' = "open" /\ UNCHANGED <<c, ln, top, items, li, col>>
Next1 == ln' = ln + 1 /\ UNCHANGED c
Blank == Go /\ Body = <<>> /\ Next1 /\ UNCHANGED <<ph, top, items, li, col>>
\* blanks other than spaces in front of a line, a tab say
Odd == L # <<>> /\ LET m == Margin(L) IN m < Len(L) /\ L[m + 1] # 35 /\ Space(L[m + 1])
TopLine ==
  LET k == Key(Body)
      v == Val(Body)
  IN IF Odd \/ Margin(L) # 0 \/ Dash \/ First(Body, 58) = 0 \/ Has(top, k) THEN Open
     ELSE IF k = kFields /\ v = <<>> THEN Next1 /\ ph' = "list" /\ li' = -1 /\ top' = With(top, k, EmptyList) /\ UNCHANGED <<items, col>>
     ELSE IF v = <<>> /\ k \notin Known \ {kFields, kCfg} THEN Open
     ELSE Next1 /\ ph' = "top" /\ top' = With(top, k, v) /\ UNCHANGED <<items, li, col>>
Item ==
  LET s == IF Dash THEN Rest ELSE Body
      k == Key(s)
      v == Val(s)
  IN IF Odd \/ First(s, 58) = 0 \/ v = <<>> THEN Open
     ELSE IF Dash
     THEN IF li # -1 /\ Margin(L) # li THEN Open
          ELSE Next1 /\ li' = Margin(L) /\ col' = Column /\ items' = Append(items, With([x \in {} |-> <<>>], k, v)) /\ UNCHANGED <<ph, top>>
     ELSE IF items = <<>> \/ Margin(L) # col \/ Has(items[Len(items)], k) THEN Open
     ELSE Next1 /\ items' = [items EXCEPT ![Len(items)] = With(@, k, v)] /\ UNCHANGED <<ph, top, li, col>>
Line == /\ Go /\ Body # <<>>
        /\ IF ph = "list" /\ (Dash \/ Margin(L) > 0 \/ Odd) THEN Item ELSE TopLine

(* ------------------------------ what it means ---------------------------- *)
Digits(s) == s # <<>> /\ \A j \in 1..Len(s) : s[j] \in 48..57
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
Max32 == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Leq(Tail(a), Tail(b))
U32(s) == Digits(s) /\ (Len(Strip(s)) < 10 \/ (Len(Strip(s)) = 10 /\ Leq(Strip(s), Max32)))
Small(s, n) == IF Digits(s) /\ Len(Strip(s)) = 1 /\ Strip(s)[1] - 48 <= n THEN Strip(s)[1] - 48 ELSE -1
Among(s, names) == IF \E j \in 1..Len(names) : names[j] = s THEN CHOOSE j \in 1..Len(names) : names[j] = s ELSE 0
Option(s, names) == IF Among(s, names) > 0 THEN Among(s, names) - 1 ELSE Small(s, 2)
Floats == {K.floats[j] : j \in 1..Len(K.floats)}
Res(s) == IF s = vNull THEN <<TRUE, <<>>>>
          ELSE IF \E x \in Floats : x[1] = s THEN <<TRUE, (CHOOSE x \in Floats : x[1] = s)[2]>> ELSE <<FALSE, <<>>>>
Numbers == {kWidth, kHeight, kStep}
Whole == {kVersion, kEnc, kComp} \cup Numbers
\* a type given as a number, a version of another format, an item without a resolution, a header without fields
Unsaid == \/ Has(top, kVersion) /\ Digits(top[kVersion]) /\ U32(top[kVersion]) /\ Small(top[kVersion], 5) < 2 /\ Len(Strip(top[kVersion])) < 4
          \/ ~Has(top, kFields) \/ top[kFields] # EmptyList
          \/ \E j \in 1..Len(items) : ~Has(items[j], kRes) \/ (Has(items[j], kType) /\ Digits(items[j][kType]))
Means == /\ Whole \subseteq DOMAIN top /\ \A k \in Numbers : U32(top[k])
         /\ Small(top[kVersion], 5) >= 0 /\ Option(top[kEnc], Encs) >= 0 /\ Option(top[kComp], Comps) >= 0
         /\ \A j \in 1..Len(items) : /\ {kName, kOffset, kType, kRes} \subseteq DOMAIN items[j]
                                     /\ U32(items[j][kOffset]) /\ Among(items[j][kType], Types) > 0 /\ Res(items[j][kRes])[1]
Desc == [ver |-> IF K.magic = 0 THEN Small(top[kVersion], 5) ELSE K.magic, w |-> Strip(top[kWidth]), h |-> Strip(top[kHeight]), step |-> Strip(top[kStep]),
         enc |-> Option(top[kEnc], Encs), comp |-> Option(top[kComp], Comps), cfg |-> IF Has(top, kCfg) THEN top[kCfg] ELSE <<>>,
         fields |-> [j \in 1..Len(items) |-> [name |-> items[j][kName], off |-> Strip(items[j][kOffset]), t |-> Among(items[j][kType], Types), res |-> Res(items[j][kRes])[2]]]]
Same(b) == LET d == Desc IN
  IF b.ver # d.ver THEN "version" ELSE IF b.w # d.w \/ b.h # d.h THEN "dimensions" ELSE IF b.step # d.step THEN "step"
  ELSE IF b.enc # d.enc \/ b.comp # d.comp THEN "options" ELSE IF b.cfg # d.cfg THEN "configuration"
  ELSE IF Len(b.fields) # Len(d.fields) THEN "fields" ELSE IF b.fields # d.fields THEN "field" ELSE IF K.used # K.len THEN "length" ELSE "ok"
Verdict == IF ph = "open" \/ Unsaid THEN "open"
           ELSE IF Means THEN (IF ~K.read THEN "refused" ELSE Same(K.back))
           ELSE IF K.read THEN "accepted" ELSE "rejected"
End == /\ (ph = "open" \/ (ph \in {"top", "list"} /\ ln > Len(K.lines))) /\ ph' = "end" /\ UNCHANGED <<c, ln, top, items, li, col>>
       /\ \E v \in {Verdict} : PrintT(<<"D", c, v>>)
Next == Blank \/ Line \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
