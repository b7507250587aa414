------------------------------ MODULE FrontGen ------------------------------
(* Enumerates what a program does with one front end of the WebAssembly module (the Python decoder, the
   Foxglove converter): "G" a message, "R" the last message again, "B" a damaged message, "H" only the header,
   "E" a cloud without points, "L" a cloud larger than the buffer the front end starts with, "F" a message
   during which an allocation fails, "M" a message whose sizes contradict its payload.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
Max == atoi(IOEnv.FRONT_LEN)
Letters == IF IOEnv.FRONT_KIND = "py" THEN {"G", "R", "B", "H", "E", "F", "M"} ELSE {"G", "R", "B", "E", "F", "M"}
VARIABLES hist, told, big
Init == hist = <<>> /\ told = FALSE /\ big = 0
Last == IF hist = <<>> THEN "-" ELSE hist[Len(hist)]
(* a message can only come again once there was one; three large clouds are enough *)
May(l) == (l = "R" => Last \in {"G", "R", "L", "H", "B"}) /\ (l = "L" => big < 3)
Step == Len(hist) < Max /\ ~told /\ \E l \in Letters \cup (IF Max > 4 THEN {"L"} ELSE {}) : May(l) /\ hist' = Append(hist, l) /\ big' = big + (IF l = "L" THEN 1 ELSE 0) /\ UNCHANGED told
Tell == Len(hist) = Max /\ ~told /\ told' = TRUE /\ PrintT(<<"S", ToString(hist)>>) /\ UNCHANGED <<hist, big>>
Next == Step \/ Tell
Spec == Init /\ [][Next]_<<hist, told, big>>
=============================================================================
