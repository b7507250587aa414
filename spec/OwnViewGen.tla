---------------------------- MODULE OwnViewGen -----------------------------
(* Enumerates sequences of operations on N messages; prints each one. *)
EXTENDS OwnView, IOUtils
N == atoi(IOEnv.OWN_N)
Max == atoi(IOEnv.OWN_LEN)
VARIABLES st, hist, told
vars == <<st, hist, told>>
Cont(k) == "o" \o ToString(10 + 20 * k) \o ".4"
Ops == {<<k, i, 0, "", 0>> : k \in {"E", "D"}, i \in 1..N}
       \cup {<<k, i, 0, v, 10 + 20 * Len(hist)>> : k \in {"O", "R"}, i \in 1..N, v \in {"e", Cont(Len(hist))}}
       \cup {<<k, i, 0, "x" \o ToString(i - 1), 100 + i - 1>> : k \in {"X", "V"}, i \in 1..N}
       \cup {<<k, i, j, "", 0>> : k \in {"P", "M", "C", "A"}, i \in 1..N, j \in 1..N}
(* slots fill up in order, so that renamed behaviours are not repeated *)
InOrder(op) == op[1] \in {"E", "O", "X", "P", "M"} => \A j \in 1..(op[2] - 1) : Alive(st, j)
Init == st = [i \in 1..N |-> Absent] /\ hist = <<>> /\ told = FALSE
Step == /\ Len(hist) < Max
        /\ \E op \in Ops : Enabled(st, op) /\ InOrder(op) /\ hist' = Append(hist, op) /\ st' = CHOOSE t \in After(st, op) : TRUE
        /\ UNCHANGED told
Tell == Len(hist) = Max /\ ~told /\ told' = TRUE /\ PrintT(<<"S", ToString(hist)>>) /\ UNCHANGED <<st, hist>>
Next == Step \/ Tell
Spec == Init /\ [][Next]_vars
Valid == ViewsAreValid(st)
=============================================================================
