------------------------------ MODULE PoolGen -------------------------------
(* Enumerates histories of one user of the subscriber:
     "K" a message is delivered and kept in the lowest free slot, "L" delivered and dropped,
     "T" kept and the callback throws, "U" dropped and it throws, "B" a malformed message,
     "D" slot dropped, "C" slot copied to the lowest free one, "S" the cloud in the slot is
     modified by its holder, "X" the subscriber is destroyed, "N" a new one is made.        *)
EXTENDS Pool, IOUtils
NSlots == atoi(IOEnv.POOL_SLOTS)
Max == atoi(IOEnv.POOL_LEN)
VARIABLES alive, held, next, idle, hist, told
vars == <<alive, held, next, idle, hist, told>>
Init == alive = TRUE /\ held = [s \in 1..NSlots |-> 0] /\ next = 1 /\ idle = {} /\ hist = <<>> /\ told = FALSE
Say(k, s, t) == hist' = Append(hist, <<k, s, t>>) /\ UNCHANGED told
(* the cloud for the next message: an idle one, or a new one *)
Obj == IF idle = {} THEN next ELSE CHOOSE o \in idle : \A p \in idle : o >= p
Fresh == IF idle = {} THEN next' = next + 1 ELSE next' = next
Returned(o, h, i) == IF o \in Holding(h) \/ Cardinality(i) >= 4 \/ ~alive THEN i ELSE i \cup {o}
Deliver(k) == alive /\ Free(held) # {} /\ MayDeliver(held, Obj) /\ held' = Keep(held, LowestFree(held), Obj) /\ Fresh /\ idle' = idle \ {Obj} /\ Say(k, LowestFree(held), 0) /\ UNCHANGED alive
Pass(k) == alive /\ MayDeliver(held, Obj) /\ Fresh /\ idle' = Returned(Obj, held, idle \ {Obj}) /\ Say(k, 0, 0) /\ UNCHANGED <<alive, held>>
DropS(s) == held[s] # 0 /\ held' = Drop(held, s) /\ idle' = Returned(held[s], held', idle) /\ Say("D", s, 0) /\ UNCHANGED <<alive, next>>
CopyS(s) == held[s] # 0 /\ Free(held) # {} /\ held' = Copy(held, s, LowestFree(held)) /\ Say("C", s, LowestFree(held)) /\ UNCHANGED <<alive, next, idle>>
ScribS(s) == held[s] # 0 /\ Say("S", s, 0) /\ UNCHANGED <<alive, held, next, idle>>
Destroy == alive /\ alive' = FALSE /\ idle' = {} /\ Say("X", 0, 0) /\ UNCHANGED <<held, next>>
Renew == ~alive /\ alive' = TRUE /\ Say("N", 0, 0) /\ UNCHANGED <<held, next, idle>>
Step == Len(hist) < Max /\ (\/ \E k \in {"K", "T"} : Deliver(k)
                            \/ \E k \in {"L", "U", "B"} : Pass(k)
                            \/ \E s \in 1..NSlots : DropS(s) \/ CopyS(s) \/ ScribS(s)
                            \/ Destroy \/ Renew)
Tell == Len(hist) = Max /\ ~told /\ told' = TRUE /\ PrintT(<<"S", ToString(hist)>>) /\ UNCHANGED <<alive, held, next, idle, hist>>
Next == Step \/ Tell
Spec == Init /\ [][Next]_vars
(* checked on the way *)
Sound == idle \cap Holding(held) = {} /\ Cardinality(idle) <= 4 /\ (alive \/ idle = {})
=============================================================================
