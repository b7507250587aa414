------------------------------- MODULE PcdCli -------------------------------
(***************************************************************************)
(* One run of pcd_to_cloudini_converter as a step of the file system       *)
(* (places and contents as in Cli).                                        *)
(* m: help, hasb, b (place of the directory: -b), hasf, f (-f), hasout,    *)
(*    out (-o), yes, ans (what is typed whenever it asks), enc, comp, res, *)
(*    ires, cwd                                                            *)
(* Good(x): is x a readable PCD file                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
AsDir(p) == Append(p.d, p.s \o p.e)
Goes(m) == m.yes = 1 \/ m.ans \in {"y", "Y"}
Refused(m) == (m.hasb = 1) = (m.hasf = 1) \/ m.enc \notin {"lossy", "lossless", "none"} \/ m.comp \notin {"lz4", "zstd", "none"}
(* what is to be converted into what *)
Jobs(st, m) ==
  IF m.hasb = 1 THEN {<<p, [p EXCEPT !.e = ".cldn"]>> : p \in {q \in DOMAIN st.files : q.d = AsDir(m.b) /\ q.e = ".pcd"}}
  ELSE {<<m.f, [(IF m.hasout = 1 THEN m.out ELSE m.f) EXCEPT !.e = ".cldn"]>>}
Works(st, m, Good(_), j) == j[1] \in DOMAIN st.files /\ Good(st.files[j[1]]) /\ j[2].d \in st.dirs /\ (j[2] \in DOMAIN st.files => Goes(m))
NoBatch(st, m) == m.hasb = 1 /\ AsDir(m.b) \notin st.dirs
NoPcd(m) == m.hasf = 1 /\ m.f.e # ".pcd"
(* the jobs that are done, and the possible exit statuses *)
Done(st, m, Good(_)) == IF m.help = 1 \/ Refused(m) \/ NoBatch(st, m) \/ NoPcd(m) THEN {} ELSE {j \in Jobs(st, m) : Works(st, m, Good, j)}
Status(st, m, Good(_)) ==
  IF m.help = 1 THEN {0} ELSE IF Refused(m) \/ NoBatch(st, m) \/ NoPcd(m) THEN {1}
  ELSE IF Done(st, m, Good) = Jobs(st, m) THEN {0} ELSE IF m.hasb = 1 THEN {0, 1} ELSE {1}
=============================================================================
