------------------------------- MODULE CutCli -------------------------------
(***************************************************************************)
(* One run of mcap_cutter or mcap_header_inspector (places and contents as *)
(* in Cli).                                                                *)
(* m: insp (1: the inspector), help, hasf, f, hasout, out, n (messages per *)
(*    channel), cwd                                                        *)
(* A bag is [bag: 0/1, ch: sequence of [d: topic, encoding and metadata,   *)
(* kind: "raw" / "comp" / "other"], msgs: sequence of [ch, d: times,       *)
(* sequence number and data]] in reading order.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Clouds(b, k) == {i \in 1..Len(b.ch) : b.ch[i].kind = k}
Before(b, i) == Cardinality({j \in 1..(i - 1) : b.msgs[j].ch = b.msgs[i].ch})
(* positions of the messages that are kept, in order *)
RECURSIVE Kept(_, _, _)
Kept(b, n, i) == IF i > Len(b.msgs) THEN <<>>
  ELSE (IF b.msgs[i].ch \in Clouds(b, "raw") /\ Before(b, i) < n THEN <<i>> ELSE <<>>) \o Kept(b, n, i + 1)
Many(b, s, d) == Cardinality({i \in s : b.ch[i].d = d})
IsCut(a, b, n) ==
  LET k == Kept(a, n, 1) IN
  /\ b.bag = 1 /\ \A i \in 1..Len(b.ch) : b.ch[i].kind = "raw"
  /\ \A d \in {a.ch[i].d : i \in Clouds(a, "raw")} \cup {b.ch[i].d : i \in 1..Len(b.ch)} : Many(a, Clouds(a, "raw"), d) = Many(b, 1..Len(b.ch), d)
  /\ Len(b.msgs) = Len(k)
  /\ \A j \in 1..Len(k) : b.msgs[j].d = a.msgs[k[j]].d /\ b.ch[b.msgs[j].ch].d = a.ch[a.msgs[k[j]].ch].d
  (* messages of one channel stay on one channel *)
  /\ \A j, l \in 1..Len(k) : (a.msgs[k[j]].ch = a.msgs[k[l]].ch) = (b.msgs[j].ch = b.msgs[l].ch)
Target(m) == IF m.hasout = 1 THEN (IF m.out.e = ".mcap" THEN m.out ELSE [d |-> m.out.d, s |-> m.out.s \o m.out.e, e |-> ".mcap"]) ELSE [d |-> m.cwd, s |-> m.f.s \o "_cut", e |-> ".mcap"]
(* exit statuses of runs that write nothing; {}: it writes *)
Stops(st, m, Bag(_)) ==
  IF m.help = 1 THEN {0} ELSE IF m.hasf = 0 \/ m.f.e # ".mcap" \/ m.f \notin DOMAIN st.files THEN {1}
  ELSE LET b == Bag(st.files[m.f]) IN
    IF m.insp = 1 THEN (IF b.bag = 0 THEN {1} ELSE IF Clouds(b, "comp") = {} THEN {0} ELSE IF \A i \in 1..Len(b.msgs) : b.msgs[i].ch \notin Clouds(b, "comp") THEN {1} ELSE {0, 1})
    ELSE IF m.n <= 0 \/ b.bag = 0 \/ Target(m) = m.f THEN {1}
    ELSE IF Clouds(b, "raw") = {} THEN {0} ELSE IF Target(m).d \notin st.dirs THEN {1} ELSE {}
(* the message the inspector describes *)
First(b) == CHOOSE i \in 1..Len(b.msgs) : b.msgs[i].ch \in Clouds(b, "comp") /\ \A j \in 1..(i - 1) : b.msgs[j].ch \notin Clouds(b, "comp")
Describes(st, m, Bag(_)) == m.insp = 1 /\ m.help = 0 /\ Stops(st, m, Bag) = {0, 1}
=============================================================================
