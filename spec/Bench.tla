------------------------------- MODULE Bench --------------------------------
(***************************************************************************)
(* What mcap_codec_benchmark reports about a bag.  The messages are taken  *)
(* in the order in which a bag is read.  State: the messages of raw clouds *)
(* met so far per topic, the sums per topic (and per mode: V4, V5, V4-viz, *)
(* V5-viz), the topics explained, and the messages measured.               *)
(*                                                                         *)
(* Case: max, every (options), mode (0: all, 1..4, 5: not a mode), only    *)
(*   (encode only), replay, rep (decode repeat), hash, explain, help,      *)
(*   file ("bag", "junk", "none": no such file, "": none was given),       *)
(*   topics (names in ascending order), raws (those of raw clouds),        *)
(*   msgs: t (topic), raw (1: a raw cloud), ok (1: a cloud), n             *)
(*   (points), b (bytes of points), e (bytes after encoding, per mode; -1: *)
(*   the encoder refuses), xp (what is to be explained)                    *)
(*   got: rc, crash, kept, found (topics announced), none (1: nothing      *)
(*   processed), blocks: name, m (messages), p (points), raw (MiB, in      *)
(*   hundredths), rows: mode, out (MiB, in hundredths), ratio (in tenths   *)
(*   of a percent, -1: n/a), enc, dec (MB/s, -1: n/a); replay (samples,    *)
(*   repeat, decodes; -1: not announced), prints (modes with a             *)
(*   fingerprint), xps (explanations), us (duration of the run)            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Modes == 1..4
VARIABLES c, i, seen, sum, xps, sel, ph
vars == <<c, i, seen, sum, xps, sel, ph>>
K == Cases[c]
Zero == [m |-> 0, p |-> 0, b |-> 0, k |-> [j \in Modes |-> [in |-> 0, out |-> 0, n |-> 0]]]
Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ ph = "go" /\ sel = "" /\ xps = <<>>
        /\ seen = [t \in 1..Len(Cases[c].topics) |-> 0] /\ sum = [t \in 1..Len(Cases[c].topics) |-> Zero]

(* ------------------------- what it is asked to do ------------------------ *)
Wrong == \/ K.mode = 5 \/ (K.replay = 1 /\ (K.only = 1 \/ K.mode = 0)) \/ (K.hash = 1 /\ K.replay = 0)
         \/ K.file # "bag" \/ Len(K.raws) = 0
Works == K.help = 0 /\ ~Wrong
Asked == IF K.mode = 0 THEN Modes ELSE {K.mode}
Every == IF K.every = 0 THEN 1 ELSE K.every
Times == IF K.rep = 0 THEN 1 ELSE K.rep

(* ------------------------------ the messages ----------------------------- *)
M == K.msgs[i]
Go == ph = "go" /\ Works /\ i <= Len(K.msgs) /\ i' = i + 1 /\ UNCHANGED <<c, ph>>
Other == Go /\ M.raw = 0 /\ UNCHANGED <<seen, sum, xps, sel>>
Explain == Go /\ M.raw = 1 /\ K.explain = 1 /\ seen' = [seen EXCEPT ![M.t] = @ + 1] /\ UNCHANGED <<sum, sel>>
           /\ xps' = IF seen[M.t] = 0 /\ M.ok = 1 THEN Append(xps, M.xp) ELSE xps
Chosen(k) == (K.max = 0 \/ k <= K.max) /\ (k - 1) % Every = 0
Counted == Chosen(seen[M.t] + 1) /\ M.ok = 1 /\ M.b > 0
Measure == Go /\ M.raw = 1 /\ K.explain = 0 /\ seen' = [seen EXCEPT ![M.t] = @ + 1] /\ UNCHANGED xps
           /\ IF ~Counted THEN UNCHANGED <<sum, sel>>
              ELSE /\ sel' = sel \o ToString(i) \o " "
                   /\ sum' = [sum EXCEPT ![M.t] = [m |-> @.m + 1, p |-> @.p + M.n, b |-> @.b + M.b,
                        k |-> [j \in Modes |-> IF j \in Asked /\ M.e[j] >= 0
                                               THEN [in |-> @.k[j].in + M.b, out |-> @.k[j].out + M.e[j], n |-> @.k[j].n + 1] ELSE @.k[j]]]]

(* ------------------------------- the report ------------------------------ *)
MiB == 1048576
Abs(x) == IF x < 0 THEN -x ELSE x
\* x hundredths of a MiB stand for b bytes; y tenths of a percent for a / b
Sized(x, b) == x < 8000 /\ 2 * Abs(x * (MiB \div 4) - b * 25) <= (MiB \div 4) + 50
Share(y, a, b) == /\ y >= 0 /\ y < 2000000 /\ y <= 2000000000 \div (1 + b \div 1000)
                  /\ Abs(y * (b \div 1000) + (y * (b % 1000)) \div 1000 - a) <= b \div 2000 + 2
\* nothing is faster than the whole run
Speed(x, b, times) == x >= 0 /\ x < 200000 /\ (b \div (x + 1)) * times <= K.got.us
Decodes == K.only = 0
Row(r, s) ==
  IF r.mode \notin Asked \/ s.in = 0 THEN (IF r.out = 0 /\ r.ratio = -1 /\ r.enc <= 0 /\ r.dec = -1 THEN "ok" ELSE "Unmeasured")
  ELSE IF ~Sized(r.out, s.out) THEN "Size" ELSE IF ~Share(r.ratio, s.out, s.in) THEN "Ratio"
  ELSE IF ~Speed(r.enc, s.in, 1) THEN "Speed"
  ELSE IF Decodes THEN (IF Speed(r.dec, s.in, IF K.replay = 1 THEN Times ELSE 1) THEN "ok" ELSE "Speed")
  ELSE IF r.dec = -1 THEN "ok" ELSE "Speed"
First(q) == LET bad == {v \in 1..Len(q) : q[v] # "ok"} IN IF bad = {} THEN "ok" ELSE q[CHOOSE v \in bad : \A u \in bad : v <= u]
Block(g, name, s) ==
  IF g.name # name THEN "Topic" ELSE IF g.m # s.m THEN "Messages" ELSE IF g.p # s.p THEN "Points" ELSE IF ~Sized(g.raw, s.b) THEN "Raw"
  ELSE IF {r.mode : r \in {g.rows[v] : v \in 1..Len(g.rows)}} \cap Asked # Asked \/ Len(g.rows) # Cardinality({g.rows[v].mode : v \in 1..Len(g.rows)}) THEN "Modes"
  ELSE First([v \in 1..Len(g.rows) |-> Row(g.rows[v], s.k[g.rows[v].mode])])
RECURSIVE Fold(_)
Fold(ts) == IF ts = {} THEN Zero
  ELSE LET t == CHOOSE x \in ts : TRUE
           a == sum[t]
           r == Fold(ts \ {t})
       IN [m |-> a.m + r.m, p |-> a.p + r.p, b |-> a.b + r.b,
           k |-> [j \in Modes |-> [in |-> a.k[j].in + r.k[j].in, out |-> a.k[j].out + r.k[j].out, n |-> a.k[j].n + r.k[j].n]]]
Live == {t \in 1..Len(K.topics) : sum[t].m > 0}
RECURSIVE Ranked(_)
Ranked(ts) == IF ts = {} THEN <<>> ELSE LET t == CHOOSE x \in ts : \A y \in ts : x <= y IN <<t>> \o Ranked(ts \ {t})
Report ==
  LET g == K.got
      ts == Ranked(Live)
      more == Len(ts) > 1
      samples == IF K.mode \in Modes THEN Fold(Live).k[K.mode].n ELSE 0
  IN IF g.none # (IF ts = <<>> THEN 1 ELSE 0) THEN "Nothing"
     ELSE IF Len(g.blocks) # Len(ts) + (IF more THEN 1 ELSE 0) THEN "Blocks"
     ELSE IF ts # <<>> /\ K.replay = 1 /\ g.replay # <<samples, Times, samples * Times>> THEN "Replay"
     ELSE IF K.hash = 1 /\ ts # <<>> /\ g.prints # <<K.mode>> THEN "Prints"
     ELSE First([v \in 1..Len(ts) |-> Block(g.blocks[v], K.topics[ts[v]], sum[ts[v]])] \o (IF more THEN <<Block(g.blocks[Len(ts) + 1], "", Fold(Live))>> ELSE <<>>))
SetOf(q) == {q[v] : v \in 1..Len(q)}
Verdict ==
  IF K.got.crash = 1 THEN "Crash" ELSE IF K.got.kept = 0 THEN "Disk"
  ELSE IF K.help = 1 THEN (IF K.got.rc = 0 THEN "ok" ELSE "Help")
  ELSE IF Wrong THEN (IF K.got.rc # 0 /\ Len(K.got.blocks) = 0 THEN "ok" ELSE "Silent")
  ELSE IF K.got.rc # 0 THEN "Failed"
  ELSE IF SetOf(K.got.found) # SetOf(K.raws) THEN "Found"
  ELSE IF K.explain = 1 THEN (IF K.got.xps # xps THEN "Explained" ELSE IF Len(K.got.blocks) > 0 THEN "Blocks" ELSE "ok")
  ELSE Report
End == /\ ph = "go" /\ (~Works \/ i > Len(K.msgs)) /\ ph' = "end" /\ UNCHANGED <<c, i, seen, sum, xps, sel>>
       /\ \E v \in {Verdict} : PrintT(<<"D", c, v, sel>>)
Next == Other \/ Explain \/ Measure \/ End
Spec == Init /\ [][Next]_vars
(* sums and counts belong together; the modes asked for are all fed the same *)
Sums == \A t \in 1..Len(K.topics) : /\ sum[t].m <= seen[t] /\ (K.max > 0 => sum[t].m <= K.max)
                                     /\ \A j \in Modes : sum[t].k[j].in <= sum[t].b /\ sum[t].k[j].n <= sum[t].m /\ (j \notin Asked => sum[t].k[j].n = 0)
=============================================================================
