------------------------------ MODULE Profile -------------------------------
(***************************************************************************)
(* A resolution profile is applied to a field list.  The machine takes one *)
(* field after the other off the list and decides what becomes of it; the  *)
(* list it builds must be the recorded one.                                *)
(* Case: fields, got: sequences of [name, off, t, res] (res: float bits in *)
(*   hex, or "-"); prof: sequence of <<name, res>>; def: res or "-";       *)
(*   real = "ok" or what failed                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Float32 == 7
VARIABLES c, todo, out, ph
vars == <<c, todo, out, ph>>
K == Cases[c]
IsZero(r) == r \in {"00000000", "80000000"}
Named(f) == {j \in 1..Len(K.prof) : K.prof[j][1] = f.name}
ResOf(f) == K.prof[CHOOSE j \in Named(f) : TRUE][2]
Init == c \in 1..Len(Cases) /\ todo = Cases[c].fields /\ out = <<>> /\ ph = "go"
f1 == todo[1]
Take == ph = "go" /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<c, ph>>
Remove == Take /\ Named(f1) # {} /\ IsZero(ResOf(f1)) /\ out' = out
SetNamed == Take /\ Named(f1) # {} /\ ~IsZero(ResOf(f1)) /\ out' = Append(out, [f1 EXCEPT !.res = ResOf(f1)])
SetDefault == Take /\ Named(f1) = {} /\ K.def # "-" /\ f1.t = Float32 /\ out' = Append(out, [f1 EXCEPT !.res = K.def])
Keep == Take /\ Named(f1) = {} /\ (K.def = "-" \/ f1.t # Float32) /\ out' = Append(out, f1)
Report == /\ ph = "go" /\ todo = <<>> /\ ph' = "end" /\ UNCHANGED <<c, todo, out>>
          /\ PrintT(<<"D", c, IF K.real # "ok" THEN "Accepted" ELSE IF Len(K.got) # Len(out) THEN "Removed"
                              ELSE IF \E j \in 1..Len(out) : [out[j] EXCEPT !.res = ""] # [K.got[j] EXCEPT !.res = ""] THEN "Fields"
                              ELSE IF out # K.got THEN "Resolution" ELSE "ok">>)
Next == Remove \/ SetNamed \/ SetDefault \/ Keep \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
