-------------------------------- MODULE Pool --------------------------------
(* The clouds a subscriber hands out. The user holds clouds in slots (a slot stands for one
   shared pointer); a cloud is an object, several slots can hold the same one. The state:
   alive: the subscriber exists; held: slot -> object, 0 if the slot is empty.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Free(held) == {s \in DOMAIN held : held[s] = 0}
Holding(held) == {held[s] : s \in DOMAIN held} \ {0}
LowestFree(held) == CHOOSE s \in Free(held) : \A t \in Free(held) : s <= t
(* a delivered cloud is one nobody holds *)
MayDeliver(held, obj) == obj # 0 /\ obj \notin Holding(held)
Keep(held, s, obj) == [held EXCEPT ![s] = obj]
Drop(held, s) == [held EXCEPT ![s] = 0]
Copy(held, s, t) == [held EXCEPT ![t] = held[s]]
=============================================================================
