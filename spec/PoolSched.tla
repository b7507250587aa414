----------------------------- MODULE PoolSched ------------------------------
(* Histories of the subscriber recorded under the controlled scheduler. Events in the order
   in which they happened:
     <<"d", o, m, same, keep>>    the callback got object o for message m; same = 1: with the
                            content of that message; keep = 1: it is kept (until "r")
     <<"m", m, n, said, esc>>     the delivery of message m ended: n calls of the callback
     <<"r", o, same>>       a thread lets go of o; same = 1: its content is what it was
     <<"x">> <<"X">>        destruction of the subscriber begins / has ended
     <<"end", n>>           everything is released; n blocks were not freed
     <<"race">> <<"released">> <<"released twice">> <<"hang">>   noticed by the scheduler      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, held, ph
vars == <<c, l, held, ph>>
E == Cases[c].ev[l]
Good(m) == Cases[c].good[m] = 1
Verdict ==
  CASE E[1] = "d" /\ E[2] \in held -> "Shared"
    [] E[1] = "d" /\ (~Good(E[3]) \/ E[4] = 0) -> "Content"
    [] E[1] = "m" /\ Good(E[2]) /\ (E[3] # 1 \/ E[4] = 1) -> "Delivered"
    [] E[1] = "m" /\ ~Good(E[2]) /\ (E[3] # 0 \/ E[4] = 0) -> "Bad"
    [] E[1] = "m" /\ E[5] = 1 -> "Escaped"
    [] E[1] = "r" /\ (E[2] \notin held \/ E[3] = 0) -> "Changed"
    [] E[1] = "end" /\ (E[2] # 0 \/ held # {} \/ l # Len(Cases[c].ev)) -> "Leak"
    [] E[1] \notin {"d", "m", "r", "x", "X", "end"} -> E[1]
    [] E[1] # "end" /\ l = Len(Cases[c].ev) -> "hang"
    [] OTHER -> "ok"
Init == c \in 1..Len(Cases) /\ l = 1 /\ held = {} /\ ph = "run"
Next ==
  /\ ph = "run" /\ UNCHANGED c
  /\ IF l > Len(Cases[c].ev) THEN ph' = "done" /\ PrintT(<<"D", c, "ok", l>>) /\ UNCHANGED <<l, held>>
     ELSE \E v \in {Verdict} :
          IF v # "ok" THEN ph' = "done" /\ PrintT(<<"D", c, v, l>>) /\ UNCHANGED <<l, held>>
          ELSE /\ l' = l + 1 /\ ph' = ph
               /\ held' = (IF E[1] = "d" /\ E[5] = 1 THEN held \cup {E[2]} ELSE IF E[1] = "r" THEN held \ {E[2]} ELSE held)
Spec == Init /\ [][Next]_vars
=============================================================================
