---------------------------- MODULE OwnViewTrace ----------------------------
(* Case: ops (as in OwnView), obs = per operation the observed slots, each <<view, meta>>; real = "ok" or what failed. *)
EXTENDS OwnView, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, st, ph
vars == <<c, k, st, ph>>
K == Cases[c]
N == 4
Init == c \in 1..Len(Cases) /\ k = 1 /\ st = [i \in 1..N |-> Absent] /\ ph = "go"
Agrees(s, o) == \A i \in 1..N : s[i].view = o[i][1] /\ (s[i].view = "-" \/ s[i].meta = -1 \/ s[i].meta = o[i][2])
Possible(op, o) == {s \in After(st, op) : Agrees(s, o)}
Done(v) == PrintT(<<"D", c, v, k>>) /\ ph' = "end" /\ UNCHANGED <<c, k, st>>
Follow == /\ ph = "go" /\ K.real = "ok" /\ k <= Len(K.ops)
          /\ Assert(Enabled(st, K.ops[k]), "operation not possible")
          /\ \E ss \in {Possible(K.ops[k], K.obs[k])} :
               IF ss = {} THEN Done(IF \E s \in After(st, K.ops[k]) : \A i \in 1..N : s[i].view = K.obs[k][i][1] THEN "Members" ELSE "View")
               ELSE (* several only differ in what lies unused in a moved-from message *)
                    st' = (CHOOSE s \in ss : TRUE) /\ k' = k + 1 /\ UNCHANGED <<c, ph>>
Fail == ph = "go" /\ K.real # "ok" /\ Done("Accepted")
End == ph = "go" /\ K.real = "ok" /\ k > Len(K.ops) /\ Done("ok")
Next == Follow \/ Fail \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
