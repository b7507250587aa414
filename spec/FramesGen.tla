----------------------------- MODULE FramesGen ------------------------------
(***************************************************************************)
(* Every arrangement of chunks that can be reached from a payload of Full  *)
(* full chunks and possibly a partial one by dropping, swapping and        *)
(* repeating chunks and by declaring another number of points.  TLC        *)
(* enumerates all of them; each is replayed into the real decoder.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxFull, MaxLen
VARIABLES full, tail, arr, dn, said
vars == <<full, tail, arr, dn, said>>
Ids == [i \in 1..(full + tail) |-> i]
Init == /\ full \in 0..MaxFull /\ tail \in {0, 1}
        /\ arr = Ids /\ dn = 0 /\ said = FALSE
Drop(i) == arr' = [j \in 1..Len(arr) - 1 |-> IF j < i THEN arr[j] ELSE arr[j + 1]] /\ UNCHANGED dn
Swap(i, j) == i < j /\ arr' = [arr EXCEPT ![i] = arr[j], ![j] = arr[i]] /\ UNCHANGED dn
Repeat(i) == Len(arr) < MaxLen /\ arr' = Append(arr, arr[i]) /\ UNCHANGED dn
Redeclare(d) == dn = 0 /\ dn' = d /\ UNCHANGED arr   \* chunks more or fewer than are there
Edit == /\ ~said
        /\ \/ \E i \in 1..Len(arr) : Drop(i) \/ Repeat(i)
           \/ \E i, j \in 1..Len(arr) : Swap(i, j)
           \/ \E d \in {-1, 1} : Redeclare(d)
        /\ UNCHANGED <<full, tail, said>>
Say == ~said /\ said' = TRUE /\ PrintT(<<"PLAN", full, tail, dn, arr>>) /\ UNCHANGED <<full, tail, arr, dn>>
Next == Edit \/ Say
Spec == Init /\ [][Next]_vars
TypeOK == Len(arr) <= MaxLen + MaxFull + 1 /\ \A j \in 1..Len(arr) : arr[j] \in 1..(full + tail)
=============================================================================
