------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* Reusing an encoder and a decoder.  The state of the model is empty: a   *)
(* call's outcome is a function of its arguments (`Fresh`), whatever calls *)
(* came before, in whatever order, successful or not.  Two uses:           *)
(*  - generation (GEN=1): TLC enumerates histories of calls;               *)
(*  - judgement: recorded histories (ops: [call, out], out a digest of     *)
(*    result, bytes and exception) against the outcomes of the same calls  *)
(*    on newly made objects (fresh: call -> out).                          *)
(* Calls: 1..3 encode cloud 1..3 into a reused vector, 4..6 into a fresh   *)
(* buffer, 7 data that is no whole number of points, 8 a buffer too small, *)
(* 9..11 decode payload 1..3, 12, 13 decode a payload of another           *)
(* description, 14 a damaged payload, 15 a cut payload, 16 into a small    *)
(* buffer.  Encode calls go to one encoder, decode calls to one decoder.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == IF "CASES" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.CASES) ELSE <<>>
CONSTANTS Calls, MaxLen
VARIABLES c, ph, hist, bad
vars == <<c, ph, hist, bad>>
K == Cases[c]
(* generation *)
GenInit == c = 0 /\ ph = "gen" /\ hist = <<>> /\ bad = <<>>
GenCall(k) == ph = "gen" /\ Len(hist) < MaxLen /\ hist' = Append(hist, k) /\ UNCHANGED <<c, ph, bad>>
GenSay == ph = "gen" /\ Len(hist) = MaxLen /\ ph' = "end" /\ PrintT(<<"H", hist>>) /\ UNCHANGED <<c, hist, bad>>
GenNext == GenSay \/ \E k \in Calls : GenCall(k)
GenSpec == GenInit /\ [][GenNext]_vars
(* judgement *)
Init == c \in 1..Len(Cases) /\ ph = "ops" /\ hist = <<>> /\ bad = <<>>
Fresh(call) == K.fresh[call]
Call ==
  /\ ph = "ops" /\ Len(hist) < Len(K.ops)
  /\ LET o == K.ops[Len(hist) + 1] IN
       /\ hist' = Append(hist, o.call)
       /\ bad' = IF bad = <<>> /\ o.out # Fresh(o.call) THEN <<o.call, Len(hist) + 1>> ELSE bad
  /\ UNCHANGED <<c, ph>>
Report == ph = "ops" /\ Len(hist) = Len(K.ops) /\ ph' = "end"
          /\ PrintT(<<"D", c, IF bad = <<>> THEN "ok" ELSE "Fresh", IF bad = <<>> THEN 0 ELSE bad[1], IF bad = <<>> THEN 0 ELSE bad[2]>>)
          /\ UNCHANGED <<c, hist, bad>>
Next == Call \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
