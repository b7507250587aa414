------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* A publisher plugin and a subscriber plugin of point_cloud_transport     *)
(* live through a history of events, recorded from the real ones.  The     *)
(* machine keeps the resolution in force and what was published, and says  *)
(* what every event has to lead to.  What the delivered clouds contain is  *)
(* judged by RosMsg and RoundTrip; here it is identified by a digest.      *)
(* A description of a cloud is [w, h, step, fields], fields a sequence of  *)
(* <<name, offset, type>>.  Case: sequence of events                       *)
(*   [k |-> "decl", ok, over, got]      parameters declared; over = "-" or *)
(*                                      the value configured               *)
(*   [k |-> "set", ok, ps]              ps: sequence of <<name, value>>    *)
(*   [k |-> "pub", ok, msg, n, big, same, out, pay, res]  cloud msg of n   *)
(*       bytes published, the same afterwards; out, pay = description in   *)
(*       the message and in its payload; res = resolution ("-": none) per  *)
(*       field in the payload                                              *)
(*   [k |-> "ser", .., with]            the same, serialized directly with *)
(*                                      resolution "with"                  *)
(*   [k |-> "ext", ..]                  a message that comes from elsewhere *)
(*   [k |-> "recv", ok, src, meta, size, soft, digest]  message src (index *)
(*       of publication) received with description meta and size bytes of  *)
(*       payload; soft = other members that were changed                   *)
(*   [k |-> "rei", ok, src, fmt, info, res]  its encoding is read;         *)
(*   [k |-> "conv", ok, msg, got]       conversion to RosPointCloud2       *)
(*   [k |-> "newpub"], [k |-> "newsub"]                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, res, msgs, bad
vars == <<c, i, res, msgs, bad>>
Ev == Cases[c][i]
FLOAT32 == 7
None == [w |-> 0, h |-> 0, step |-> 0, fields |-> <<>>]
Points(m) == m.w > 0 /\ m.h > 0
Apply(ps, r) == LET hit == {j \in 1..Len(ps) : ps[j][1] = "cloudini_resolution"} IN IF hit = {} THEN r ELSE ps[CHOOSE j \in hit : TRUE][2]
Resolutions(m, r) == [j \in 1..Len(m.fields) |-> IF m.fields[j][3] = FLOAT32 THEN r ELSE "-"]
(* what is wrong with a publication under resolution r *)
Published(e, r, bare) ==
  IF e.big = 1 THEN (IF e.ok = 1 THEN "BigEndian" ELSE "")
  ELSE IF e.ok # 1 THEN "Published"
  ELSE IF e.same # 1 THEN "Touched"
  ELSE IF e.out # e.msg THEN "Announced"
  ELSE IF bare /\ e.n = 0 THEN (IF e.pay = None THEN "" ELSE "Payload")
  ELSE IF e.pay # e.msg THEN "Payload"
  ELSE IF e.res # Resolutions(e.msg, r) THEN "Resolution" ELSE ""
Kept(e) == [meta |-> e.out, pay |-> e.pay, res |-> e.res, size |-> e.size, digest |-> ""]
(* a message is contradictory if its payload says something else *)
Contradicts(m, e) ==
  IF m.size = 0 THEN Points(e.meta)
  ELSE e.size < m.size \/ e.meta # m.pay
Plain(m, e) == ~e.soft /\ e.meta = m.meta
Received(e) ==
  LET m == msgs[e.src] IN
  IF Contradicts(m, e) THEN (IF e.ok = 1 THEN "Contradiction" ELSE "")
  ELSE IF e.ok # 1 THEN "Delivered"
  ELSE IF Plain(m, e) /\ m.digest # "" /\ m.digest # e.digest THEN "Repeated" ELSE ""
ReadInfo(e) ==
  LET m == msgs[e.src] IN
  IF e.fmt # "cloudini" \/ m.size = 0 THEN (IF e.ok = 1 THEN "Format" ELSE "")
  ELSE IF e.ok # 1 THEN "Info" ELSE IF e.info # m.pay \/ e.res # m.res THEN "Info" ELSE ""
Conv(e) == IF e.ok = 1 /\ e.got = e.msg THEN "" ELSE "Converted"
Init == c \in 1..Len(Cases) /\ i = 1 /\ res = "-" /\ msgs = <<>> /\ bad = ""
Stop(w) == bad' = w /\ UNCHANGED <<c, i, res, msgs>>
Go == i' = i + 1 /\ UNCHANGED <<c, bad>>
Judge(w, r, m) == IF w # "" THEN Stop(w) ELSE Go /\ res' = r /\ msgs' = m
Step ==
  /\ bad = "" /\ i <= Len(Cases[c])
  /\ IF Ev.k = "decl" THEN
          LET want == IF Ev.over = "-" THEN Ev.got ELSE Ev.over
          IN Judge(IF Ev.ok = 1 /\ Ev.got = want THEN "" ELSE "Declared", want, msgs)
     ELSE IF Ev.k = "set" THEN Judge(IF Ev.ok = 1 THEN "" ELSE "Set", Apply(Ev.ps, res), msgs)
     ELSE IF Ev.k = "pub" THEN Judge(Published(Ev, res, FALSE), res, Append(msgs, Kept(Ev)))
     ELSE IF Ev.k = "ser" THEN Judge(Published(Ev, Ev.with, TRUE), res, Append(msgs, Kept(Ev)))
     ELSE IF Ev.k = "ext" THEN Judge("", res, Append(msgs, Kept(Ev)))
     ELSE IF Ev.k = "recv" THEN
          Judge(Received(Ev), res, IF Ev.ok = 1 /\ Plain(msgs[Ev.src], Ev) THEN [msgs EXCEPT ![Ev.src].digest = Ev.digest] ELSE msgs)
     ELSE IF Ev.k = "rei" THEN Judge(ReadInfo(Ev), res, msgs)
     ELSE IF Ev.k = "conv" THEN Judge(Conv(Ev), res, msgs)
     ELSE Judge("", IF Ev.k = "newpub" THEN "-" ELSE res, msgs)
Report == /\ bad = "" => i > Len(Cases[c])
          /\ i > 0 /\ i' = 0 /\ PrintT(<<"D", c, IF bad = "" THEN "ok" ELSE bad, i>>) /\ UNCHANGED <<c, res, msgs, bad>>
Next == (i > 0 /\ Step) \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
