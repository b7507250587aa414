----------------------------- MODULE PoolTrace ------------------------------
(* Histories of the real subscriber, judged event by event. A case:
     msgs: what each message carries; conts: the contents of clouds that were seen (both as
     records [w,h,step,row,big,dense,stamp,seq,frame,fields,n]; msgs[i].good = 0: malformed);
     ev: events [k, m, n, said, esc, odd, slot, to, bytes, held] where held is what the user
     held afterwards, a sequence of <<slot, object, content>>; n the number of calls of the
     callback (-1: nobody is subscribed);
     cap: storage of the largest cloud; live: blocks alive after repetitions of the history *)
EXTENDS Pool, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, alive, held, cont, ph
vars == <<c, l, alive, held, cont, ph>>
Slots == 1..Cases[c].slots
E == Cases[c].ev[l]
Dump == E.held
After(s) == IF \E i \in 1..Len(Dump) : Dump[i][1] = s THEN LET i == CHOOSE j \in 1..Len(Dump) : Dump[j][1] = s IN <<Dump[i][2], Dump[i][3]>> ELSE <<0, 0>>
Msg == Cases[c].msgs[E.m]
Carries(x) == LET k == Cases[c].conts[x] m == Msg IN
  /\ k.w = m.w /\ k.h = m.h /\ k.step = m.step /\ k.row = m.row /\ k.big = 0 /\ k.dense = m.dense
  /\ k.stamp = m.stamp /\ k.seq = 0 /\ k.frame = m.frame /\ k.fields = m.fields /\ k.n = m.n
(* slots that must be untouched by this event *)
Same(S) == \A s \in S : After(s) = <<held[s], cont[s]>>
Delivers == E.k \in {"K", "L", "T", "U"}
Kept == E.k \in {"K", "T"}
Verdict ==
  CASE E.odd # "" -> "Construct"
    [] E.k = "B" /\ alive /\ E.n # 0 -> "Bad"
    [] E.k = "B" /\ alive /\ E.esc = 1 -> "Escaped"
    [] E.k = "B" /\ alive /\ E.said = 0 -> "Silent"
    [] (E.k = "B" \/ Delivers) /\ ~alive /\ E.n # -1 -> "Ghost"
    [] Delivers /\ alive /\ E.n # 1 -> "Delivered"
    [] Delivers /\ alive /\ E.k \in {"K", "L"} /\ (E.said = 1 \/ E.esc = 1) -> "Delivered"
    [] Delivers /\ alive /\ Kept /\ After(E.slot) = <<0, 0>> -> "Delivered"
    [] Delivers /\ alive /\ Kept /\ ~MayDeliver(held, After(E.slot)[1]) -> "Shared"
    [] Delivers /\ alive /\ Kept /\ ~Carries(After(E.slot)[2]) -> "Content"
    [] Delivers /\ alive /\ Kept /\ ~Same(Slots \ {E.slot}) -> "Changed"
    [] E.k \in {"L", "U", "B", "N", "X"} /\ ~Same(Slots) -> "Changed"
    [] E.k = "D" /\ (~Same(Slots \ {E.slot}) \/ After(E.slot) # <<0, 0>>) -> "Changed"
    [] E.k = "C" /\ (~Same(Slots \ {E.to}) \/ After(E.to) # <<held[E.slot], cont[E.slot]>>) -> "Changed"
    [] E.k = "S" /\ ~Same({s \in Slots : held[s] # held[E.slot]}) -> "Changed"
    [] E.bytes > (Cardinality(Holding([s \in Slots |-> After(s)[1]])) + 4) * Cases[c].cap + Cases[c].slack -> "Memory"
    [] OTHER -> "ok"
Init == c \in 1..Len(Cases) /\ l = 1 /\ alive = FALSE /\ held = [s \in 1..Cases[c].slots |-> 0] /\ cont = [s \in 1..Cases[c].slots |-> 0] /\ ph = "run"
Grew == LET v == Cases[c].live IN Len(v) >= 3 /\ \A i \in 2..(Len(v) - 1) : v[i + 1] > v[i]
Next ==
  /\ ph = "run"
  /\ UNCHANGED c
  /\ IF l > Len(Cases[c].ev)
     THEN /\ ph' = "done" /\ PrintT(<<"D", c, IF Grew THEN "Leak" ELSE "ok", l>>) /\ UNCHANGED <<l, alive, held, cont>>
     ELSE \E v \in {Verdict} :
          IF v # "ok" THEN ph' = "done" /\ PrintT(<<"D", c, v, l>>) /\ UNCHANGED <<l, alive, held, cont>>
          ELSE /\ l' = l + 1 /\ ph' = ph
               /\ alive' = (IF E.k = "N" THEN TRUE ELSE IF E.k = "X" THEN FALSE ELSE alive)
               /\ held' = [s \in Slots |-> After(s)[1]]
               /\ cont' = [s \in Slots |-> After(s)[2]]
Spec == Init /\ [][Next]_vars
=============================================================================
