------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* The buffer contract of the encoder.  A cloud has an advertised worst    *)
(* case (adv[1] without, adv[2] with header) and a size it really takes    *)
(* (need[1], need[2], measured with ample room).  The machine replays the  *)
(* recorded encode calls of one cloud into buffers of chosen capacities:   *)
(* a call is either refused or fills the first `need` bytes.               *)
(* A call that touches memory outside its buffer crashes the harness       *)
(* (real = "crash").                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, ph, k, bad
vars == <<c, ph, k, bad>>
K == Cases[c]
Init == c \in 1..Len(Cases) /\ ph = "bound" /\ k = 1 /\ bad = <<>>
Bound ==
  /\ ph = "bound" /\ ph' = "ops"
  /\ bad' = IF K.need[1] > K.adv[1] THEN <<"Bound", 0, K.need[1]>>
            ELSE IF K.need[2] > K.adv[2] THEN <<"Bound", 0, K.need[2]>> ELSE <<>>
  /\ UNCHANGED <<c, k>>
\* what a call may do
Refused(o) == o.step = 0 \/ o.dlen % o.step # 0 \/ o.cap < K.adv[o.hdr + 1]
Allowed(o) == IF Refused(o) THEN {<<"throw", 0>>} ELSE {<<"ok", K.need[o.hdr + 1]>>}
Call ==
  /\ ph = "ops"
  /\ IF bad # <<>> \/ k > Len(K.ops) THEN ph' = "done" /\ UNCHANGED <<k, bad>>
     ELSE LET o == K.ops[k] IN
          IF <<o.real, o.used>> \in Allowed(o) THEN k' = k + 1 /\ UNCHANGED <<ph, bad>>
          ELSE /\ bad' = <<IF o.real = "crash" THEN "Overrun" ELSE IF Refused(o) THEN "NotRefused" ELSE IF o.real = "ok" THEN "Used" ELSE "Refused", k, o.used>>
               /\ UNCHANGED <<ph, k>>
  /\ UNCHANGED c
Report == ph = "done" /\ ph' = "end" /\ PrintT(<<"D", c, IF bad = <<>> THEN "ok" ELSE bad[1], IF bad = <<>> THEN 0 ELSE bad[2], IF bad = <<>> THEN 0 ELSE bad[3]>>)
          /\ UNCHANGED <<c, k, bad>>
Next == Bound \/ Call \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
