--------------------------- MODULE EncoderConcGen ---------------------------
(* Behaviours of EncoderConc written down as plans for the real encoder: calls ("0".."9":
   number of chunks), steps of M and W, and failures ("X" compression, "A" allocation,
   "T" thread creation). Run with -simulate.                                          *)
EXTENDS EncoderConc
Add(s) == plan' = plan \o s
GenNext ==
  \/ \E k \in 0..MaxChunks : StartCall(k) /\ Add(ToString(k))
  \/ /\ call = MaxCalls \/ RandomElement(1..4) = 1
     /\ Destroy /\ Add("D")
  \/ EndFail /\ Add("X")
  \/ StageFails /\ Add("A")
  \/ CreateFails /\ Add("T")
  \/ ((MStep /\ faults' = faults) /\ Add("M"))
  \/ ((WStep /\ faults' = faults) /\ Add("W"))
  \/ pc = "gone" /\ pc' = "printed" /\ Add("D") /\ PrintT(<<"P", plan>>)
     /\ UNCHANGED <<wpc, mutex, mwait, wwait, has, cdone, exit, failed, content, mb, wb, out, size, call, nch, i, nxt, err, faults, spur, hst, hdone, hact, hfault, late>>
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
