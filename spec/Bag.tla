-------------------------------- MODULE Bag ---------------------------------
(***************************************************************************)
(* A bag is converted.  The machine takes the messages of the input bag in *)
(* reading order, one per step, together with the message in the same      *)
(* place of the output bag: it must be on the channel that stands for the  *)
(* input's channel, with the same times and number, and with the same      *)
(* bytes unless it is a point cloud to be converted.  Which output channel *)
(* stands for which input channel is discovered on the way and remembered. *)
(* In the end the channels without messages, the schemas, the metadata and *)
(* the profile of the bag are compared.                                    *)
(* Case: enc = 1: compressing, 0: decompressing; real: "ok" or what failed;*)
(*   full >= 0: the disk holds only so many records, -1: is large enough;  *)
(*   a, b: the bags: [prof, sch: seq of [name, enc, data], ch: seq of      *)
(*   [topic, menc, meta, sch (position, 0: none)], msgs: seq of [ch        *)
(*   (position), seq, log, pub, data], meta: seq of <<name, entries>>];    *)
(*   all texts and bytes stand for themselves or are numbered alike in a   *)
(*   and b; raw, cmp: the numbers of the two message definitions           *)
(*   topics: sequence of <<topic, type>> reported when the bag was opened  *)
(*   comp: compression asked for; bcomp: the one the writer was given      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, map, ph, bad
vars == <<c, k, map, ph, bad>>
K == Cases[c]
A == K.a
B == K.b
Raw == [name |-> "sensor_msgs/msg/PointCloud2", data |-> K.raw]
Comp == [name |-> "point_cloud_interfaces/msg/CompressedPointCloud2", data |-> K.cmp]
From == IF K.enc = 1 THEN Raw ELSE Comp
To == IF K.enc = 1 THEN Comp ELSE Raw
Converted(s) == IF s.name = From.name THEN [s EXCEPT !.name = To.name, !.data = To.data] ELSE s
NoSchema == [name |-> "", enc |-> "none", data |-> 0]
SchemaOf(bag, ch) == IF ch.sch = 0 THEN NoSchema ELSE bag.sch[ch.sch]
IsCloud(i) == SchemaOf(A, A.ch[i]).name = From.name
Stands(i, o) ==   \* output channel o can stand for input channel i
  LET x == A.ch[i] y == B.ch[o] IN
  /\ x.topic = y.topic /\ x.menc = y.menc /\ x.meta = y.meta /\ (x.sch = 0) = (y.sch = 0)
  /\ Converted(SchemaOf(A, x)) = SchemaOf(B, y)
Init == c \in 1..Len(Cases) /\ k = 1 /\ map = [i \in 1..Len(Cases[c].a.ch) |-> 0] /\ ph = "start" /\ bad = ""
Stop(w) == bad' = w /\ ph' = "done" /\ UNCHANGED <<c, k, map>>
Writes == Len(A.msgs) + Len(A.meta)
TopicsOf == {<<A.ch[i].topic, SchemaOf(A, A.ch[i]).name>> : i \in {i \in 1..Len(A.ch) : SchemaOf(A, A.ch[i]).name \in {Raw.name, Comp.name}}}
Topics == {K.topics[j] : j \in 1..Len(K.topics)}
Start == ph = "start" /\
  (IF \/ ~(Topics \subseteq TopicsOf) \/ {x[1] : x \in Topics} # {x[1] : x \in TopicsOf} \/ Len(K.topics) # Cardinality(Topics) THEN Stop("Topics")
   ELSE IF K.full >= 0 /\ K.full < Writes THEN Stop(IF K.real = "ok" THEN "Unreported" ELSE "")
   ELSE IF K.real # "ok" THEN Stop("Accepted")
   ELSE IF Len(B.msgs) < Len(A.msgs) THEN Stop("Lost") ELSE IF Len(B.msgs) > Len(A.msgs) THEN Stop("Added")
   ELSE ph' = "messages" /\ UNCHANGED <<c, k, map, bad>>)
Message ==
  /\ ph = "messages" /\ k <= Len(A.msgs)
  /\ \E x \in {A.msgs[k]} : \E y \in {B.msgs[k]} :
       IF <<x.seq, x.log, x.pub>> # <<y.seq, y.log, y.pub>> THEN Stop("Times")
       ELSE IF y.ch = 0 \/ ~(IF map[x.ch] # 0 THEN map[x.ch] = y.ch ELSE \A j \in DOMAIN map : map[j] # y.ch) THEN Stop("Channel")
       ELSE IF ~Stands(x.ch, y.ch) THEN Stop("ChannelContent")
       ELSE IF ~IsCloud(x.ch) /\ x.data # y.data THEN Stop("Data")
       ELSE map' = [map EXCEPT ![x.ch] = y.ch] /\ k' = k + 1 /\ UNCHANGED <<c, ph, bad>>
(* a channel without messages: any free output channel that can stand for it *)
Silent ==
  /\ ph = "messages" /\ k > Len(A.msgs) /\ \E i \in DOMAIN map : map[i] = 0
  /\ \E i \in {CHOOSE i \in DOMAIN map : map[i] = 0} :
       \E free \in {{o \in 1..Len(B.ch) : Stands(i, o) /\ \A j \in DOMAIN map : map[j] # o}} :
         IF free = {} THEN Stop("ChannelLost") ELSE map' = [map EXCEPT ![i] = CHOOSE o \in free : TRUE] /\ UNCHANGED <<c, k, ph, bad>>
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(s, u) == Len(s) = Len(u) /\ \A j \in 1..Len(s) : Count(s, s[j]) = Count(u, s[j])
Rest ==
  /\ ph = "messages" /\ k > Len(A.msgs) /\ \A i \in DOMAIN map : map[i] # 0
  /\ IF Len(B.ch) # Len(A.ch) THEN Stop("ChannelAdded")
     ELSE IF ~SameBag([j \in 1..Len(A.sch) |-> Converted(A.sch[j])], B.sch) THEN Stop("Schemas")
     ELSE IF ~SameBag(A.meta, B.meta) THEN Stop("Metadata")
     ELSE IF A.prof # B.prof THEN Stop("Profile")
     ELSE IF K.bcomp # K.comp THEN Stop("Compression") ELSE Stop("")
Report == ph = "done" /\ ph' = "end" /\ PrintT(<<"D", c, IF bad = "" THEN "ok" ELSE bad, k>>) /\ UNCHANGED <<c, k, map, bad>>
Next == Start \/ Message \/ Silent \/ Rest \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
