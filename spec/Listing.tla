------------------------------ MODULE Listing -------------------------------
(***************************************************************************)
(* What decode_mcap.py lists for a bag.  State: the messages not yet seen, *)
(* the number of compressed clouds listed, and where the recorded listing  *)
(* is.  Messages are taken in the order of their log time (those of the    *)
(* same time as they were written); a compressed cloud adds the next entry *)
(* to the listing, all others nothing; the tool stops when it has listed   *)
(* as many as it was asked for.  A cloud that can not be decoded has an    *)
(* entry that says so and keeps nothing from being listed.                 *)
(* Case: limit (-1: all), msgs (sec, ns, cloud, good, topic, names: hex in *)
(*   the order of the offsets, bytes (of the points), comp (of the         *)
(*   message), rows), entries (topic, sec, ms, ok, names, first: 1 = the   *)
(*   first point of the message, 0 = another one, -1 = none; ratio in      *)
(*   hundredths, num), total (the count in the summary, -1: no summary),   *)
(*   file (1: the tool was given a bag and a module, 0: one is missing),   *)
(*   broken (messages that can be read, then the bag breaks; -1: all),     *)
(*   rc, kept (1: nothing on the disk changed), stats (messages and        *)
(*   channels announced, -1: nothing), have (what the bag's own summary    *)
(*   has: messages, channels; -1: it has none)                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, left, n, seen, verdict
vars == <<c, left, n, seen, verdict>>
K == Cases[c]
Init == c \in 1..Len(Cases) /\ left = 1..Len(Cases[c].msgs) /\ n = 0 /\ seen = 0 /\ verdict = "go"
Before(a, b) == LET x == K.msgs[a]
                    y == K.msgs[b]
                IN x.sec < y.sec \/ (x.sec = y.sec /\ (x.ns < y.ns \/ (x.ns = y.ns /\ a < b)))
First == CHOOSE a \in left : \A b \in left \ {a} : Before(a, b)
Bad(v) == verdict' = v /\ UNCHANGED <<c, left, n, seen>>
Stops == left = {} \/ (K.limit >= 0 /\ n >= K.limit) \/ (K.broken >= 0 /\ seen >= K.broken) \/ K.file = 0
(* the time in seconds and milliseconds, rounded *)
Millis(m) == LET r == (m.ns + 500000) \div 1000000 IN <<m.sec + r \div 1000, r % 1000>>
Abs(x) == IF x < 0 THEN -x ELSE x
Entry(e, m, k) ==
  IF e.num # k THEN "Number" ELSE IF e.topic # m.topic THEN "Topic" ELSE IF <<e.sec, e.ms>> # Millis(m) THEN "Time"
  ELSE IF e.ok # m.good THEN (IF m.good = 1 THEN "Refused" ELSE "NotRefused")
  ELSE IF m.good = 0 THEN "ok"
  ELSE IF e.names # m.names THEN "Fields" ELSE IF e.first # (IF m.rows > 0 THEN 1 ELSE -1) THEN "First"
  ELSE IF 2 * Abs(e.ratio * m.comp - 100 * m.bytes) > m.comp + 2 THEN "Ratio" ELSE "ok"
Take == /\ verdict = "go" /\ ~Stops
        /\ \E a \in {First} : \E m \in {K.msgs[a]} :
             IF m.cloud = 0 THEN left' = left \ {a} /\ seen' = seen + 1 /\ UNCHANGED <<c, n, verdict>>
             ELSE IF n + 1 > Len(K.entries) THEN Bad("Missing")
             ELSE IF Entry(K.entries[n + 1], m, n + 1) # "ok" THEN Bad(Entry(K.entries[n + 1], m, n + 1))
             ELSE left' = left \ {a} /\ seen' = seen + 1 /\ n' = n + 1 /\ UNCHANGED <<c, verdict>>
(* a bag that breaks, or that is not there, is an error; all others are listed to the end *)
(* a bag with as many readable messages as asked for may or may not be found to be broken *)
Broken == K.broken >= 0 /\ ~(K.limit >= 0 /\ n >= K.limit)
Maybe == K.broken >= 0 /\ K.limit >= 0 /\ n >= K.limit /\ seen >= K.broken
End == /\ verdict = "go" /\ Stops
       /\ verdict' = IF n # Len(K.entries) THEN "Extra"
                     ELSE IF K.kept = 0 THEN "Disk"
                     ELSE IF K.file = 0 THEN (IF K.rc = 0 \/ K.total # -1 THEN "Silent" ELSE "ok")
                     ELSE IF Broken THEN (IF K.rc = 0 THEN "Silent" ELSE "ok")
                     ELSE IF Maybe /\ K.rc # 0 THEN "ok"
                     ELSE IF K.rc # 0 THEN "Failed" ELSE IF K.total # n THEN "Total"
                     ELSE IF \E k \in DOMAIN K.have : K.have[k] >= 0 /\ K.stats[k] # K.have[k] THEN "Summary" ELSE "ok"
       /\ UNCHANGED <<c, left, n, seen>>
Report == /\ verdict \notin {"go", "end"} /\ verdict' = "end" /\ PrintT(<<"D", c, verdict, n>>) /\ UNCHANGED <<c, left, n, seen>>
Next == Take \/ End \/ Report
Spec == Init /\ [][Next]_vars
(* entries and messages seen go together *)
Counts == n <= seen /\ seen + Cardinality(left) = Len(K.msgs) /\ (K.limit >= 0 => n <= K.limit)
=============================================================================
