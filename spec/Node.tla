-------------------------------- MODULE Node --------------------------------
(***************************************************************************)
(* The topic converter: a node that subscribes to one topic and publishes  *)
(* every cloud converted on another one.  Recorded histories of the real   *)
(* node are checked; the contents of what is published are judged by       *)
(* RosMsg and RoundTrip.                                                   *)
(* Case: cfg = [compressing, in, out] (names; out = "" for the default),   *)
(*   eps = quality of service offered by the publishers of the input, a    *)
(*   sequence of <<reliable, transient local>> (0 / 1); threw = 1 if the   *)
(*   node could not be made; made = [in, intype, inqos, out, outtype,      *)
(*   outqos], a qos being <<reliable, transient local>>;                   *)
(*   ev = sequence of [k |-> "listeners", n], [k |-> "stats", n],          *)
(*     [k |-> "msg", good, threw, sent, said, same]: a message arrived,    *)
(*     convertible or not; sent messages were published, said = 1: an      *)
(*     error was logged, same = 1: the message is not modified             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, listeners, bad
vars == <<c, i, listeners, bad>>
K == Cases[c]
Raw == "sensor_msgs/msg/PointCloud2"
Comp == "point_cloud_interfaces/msg/CompressedPointCloud2"
(* what can be requested from all that is offered *)
All(j) == IF \A e \in 1..Len(K.eps) : K.eps[e][j] = 1 THEN 1 ELSE 0
Qos == IF K.eps = <<>> THEN <<1, 0>> ELSE <<All(1), All(2)>>
Wanted ==
  LET z == K.cfg.compressing = 1
  IN [in |-> K.cfg.in, intype |-> IF z THEN Raw ELSE Comp, inqos |-> Qos,
      out |-> IF K.cfg.out # "" THEN K.cfg.out ELSE K.cfg.in \o (IF z THEN "/compressed" ELSE "/decompressed"),
      outtype |-> IF z THEN Comp ELSE Raw, outqos |-> Qos]
Init == c \in 1..Len(Cases) /\ i = 0 /\ listeners = 1 /\ bad = ""
Stop(w) == bad' = w /\ UNCHANGED <<c, i, listeners>>
Go(l) == i' = i + 1 /\ listeners' = l /\ UNCHANGED <<c, bad>>
Make == /\ i = 0 /\ bad = ""
        /\ IF K.cfg.in = "" THEN (IF K.threw = 1 THEN i' = Len(K.ev) + 1 /\ UNCHANGED <<c, listeners, bad>> ELSE Stop("NoInput"))
           ELSE IF K.threw = 1 THEN Stop("Made") ELSE IF K.made # Wanted THEN Stop("Topics") ELSE Go(1)
E == K.ev[i]
Step == /\ i > 0 /\ i <= Len(K.ev) /\ bad = ""
        /\ IF E.k = "listeners" THEN Go(E.n)
           ELSE IF E.k # "msg" THEN Go(listeners)
           ELSE IF E.threw = 1 THEN Stop("Died")
           ELSE IF E.same # 1 THEN Stop("Touched")
           ELSE IF listeners = 0 THEN (IF E.sent = 0 THEN Go(listeners) ELSE Stop("Idle"))
           ELSE IF E.good = 1 THEN (IF E.sent = 1 /\ E.said = 0 THEN Go(listeners) ELSE Stop("Published"))
           ELSE IF E.sent = 0 /\ E.said = 1 THEN Go(listeners) ELSE Stop("Malformed")
Report == /\ i >= 0 /\ (bad # "" \/ i > Len(K.ev))
          /\ i' = -1 /\ PrintT(<<"D", c, IF bad = "" THEN "ok" ELSE bad, i>>) /\ UNCHANGED <<c, listeners, bad>>
Next == Make \/ Step \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
