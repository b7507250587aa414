-------------------------------- MODULE Web ---------------------------------
(***************************************************************************)
(* Judges recorded runs of the real page: every step of a run has to be a  *)
(* step of WebPage, and whenever the page is idle it has to show exactly   *)
(* what the file last taken contains (Shows below).  One initial state per *)
(* recorded run.                                                           *)
(***************************************************************************)
EXTENDS WebPage, Integers, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, ph, why
vars == <<page, c, i, ph, why>>
K == Cases[c]
Ok(f) == f # 0 /\ K.files[f].mcap = 1

(* --------------------- what a file's page has to show -------------------- *)
\* messages the library compresses: they fit into a quarter of the module's memory, there is
\* memory for them, and the library gives a size for them
Counts(m) == m.big = 0 /\ m.fault = ""
Clouds(f) == {j \in DOMAIN f.chans : f.chans[j].cloud = 1}
Of(f, j) == {m \in DOMAIN f.msgs : f.msgs[m].ch = j}
Card(f, j) == [topic |-> f.chans[j].topic, schema |-> f.chans[j].schema, encoding |-> f.chans[j].encoding, id |-> f.chans[j].id, count |-> Cardinality(Of(f, j))]
Counted(f) == {m \in DOMAIN f.msgs : f.chans[f.msgs[m].ch].cloud = 1 /\ Counts(f.msgs[m])}
SumOf(S, Op(_)) == FoldSet(LAMBDA m, acc : acc + Op(m), 0, S)
Orig(f) == SumOf(Counted(f), LAMBDA m : f.msgs[m].size)
Comp(f) == SumOf(Counted(f), LAMBDA m : f.msgs[m].comp)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* v is x/d with the fraction's remainder rounded to the nearest integer
Rounds(v, x, d) == 2 * Abs(x - v * d) <= d
\* sizes in units of 1024 or of one byte; shown in tenths of a MiB
Tenths(v, x) == IF K.unit = 1024 THEN Rounds(v, 10 * x, 1024) ELSE Rounds(v, 10 * x, 1048576)
Schemas(f) == {f.chans[j].schema : j \in {j \in DOMAIN f.chans : f.chans[j].schema # ""}}
Summary(f, s) == s.kind = "file" /\ s.name = f.name /\ s.channels = Len(f.chans) /\ s.schemas = Cardinality(Schemas(f))

ShowsClouds(f, o) ==
  CASE ~Summary(f, o.status) -> "the file's name or its numbers of channels and schemas are wrong"
    [] o.found # Cardinality(Clouds(f)) -> "the number of point cloud channels is wrong"
    [] Len(o.cards) # Cardinality(Clouds(f)) \/ {o.cards[k] : k \in DOMAIN o.cards} # {Card(f, j) : j \in Clouds(f)} -> "the list of point cloud channels is wrong"
    [] ~Tenths(o.orig, Orig(f)) -> "the original size is wrong"
    [] ~Tenths(o.comp, Comp(f)) -> "the compressed size is wrong"
    [] ~(IF Orig(f) = 0 THEN o.ratio = 0 ELSE Rounds(o.ratio, 1000 * Comp(f), Orig(f))) -> "the compression ratio is wrong"
    [] OTHER -> ""
ShowsNone(f, o) ==
  CASE ~Summary(f, o.status) -> "the file's name or its numbers of channels and schemas are wrong"
    [] o.none # 1 \/ Len(o.cards) # 0 -> "it does not say that there are no point clouds"
    [] ~(ToSet(o.tags) = Schemas(f) /\ Len(o.tags) = Cardinality(Schemas(f))) -> "the list of schemas is wrong"
    [] OTHER -> ""
ShowsFile(f, o) == IF Clouds(f) # {} THEN ShowsClouds(f, o) ELSE ShowsNone(f, o)
ShowsError(o) == IF o.status.kind = "error" /\ Len(o.cards) = 0 /\ o.none = 0 THEN "" ELSE "a failure is not reported"
\* a fault need not meet a page that keeps the module, or that has nothing to read
Harmless(f, a) == \/ K.faults[a] \in {"script", "module"} /\ \E b \in 1..a - 1 : K.faults[b] \in {"", "read"}
                  \/ K.faults[a] = "read" /\ Clouds(f) = {}
ShowsAbout(f, a, o) ==
  IF K.faults[a] = "" THEN ShowsFile(f, o)
  ELSE IF ShowsError(o) = "" THEN "" ELSE IF Harmless(f, a) THEN ShowsFile(f, o) ELSE ShowsError(o)
Shows(o) ==
  CASE shown[1] = "start" -> IF Len(o.cards) = 0 /\ o.none = 0 /\ o.status.kind # "error" THEN "" ELSE "the page shows something about no file"
    [] shown[1] = "wrong name" -> IF o.status.kind = "error" THEN "" ELSE "a file of another kind is not refused"
    [] shown[1] = "busy" -> IF o.busy = 1 THEN "" ELSE "?"
    [] OTHER -> ShowsAbout(K.files[shown[2]], shown[3], o)

(* --------------------------------- replay -------------------------------- *)
Init == c \in 1..Len(Cases) /\ i = 0 /\ ph = "judge" /\ why = "" /\ PageInit
A == K.acts[i]
O == K.obs[i + 1]            \* obs[1] is the page before anything happened
\* the user's or the event loop's step
Act ==
  /\ ph = "act" /\ ph' = "see" /\ UNCHANGED <<c, i, why>>
  /\ CASE A[1] = "drop" -> Drop(A[2], Ok(A[2]))
       [] A[1] = "click" -> Click
       [] A[1] = "choose" -> IF dlg > 0 THEN Choose(A[2], Ok(A[2])) ELSE Idle
       [] A[1] = "cancel" -> IF dlg > 0 THEN Cancel ELSE Idle
       [] OTHER -> Idle
\* the background work went on: a page that is no longer busy has finished
See ==
  /\ ph = "see" /\ ph' = "judge" /\ UNCHANGED <<c, i, why>>
  /\ IF cur # 0 /\ O.busy = 0 THEN Finish ELSE Idle
Judge ==
  /\ ph = "judge" /\ UNCHANGED <<c, page>>
  /\ why' = (IF i = 0 THEN (IF O.busy = 1 THEN "the page is busy with nothing" ELSE Shows(O))
             ELSE CASE O.busy = 1 /\ cur = 0 -> "the page is busy with nothing"
                    [] A[1] = "finish" /\ O.busy = 1 -> "the page stays busy when all is done"
                    [] A[1] \in {"drop", "over"} /\ O.kept = 0 -> "the browser leaves the page for the file"
                    [] A[1] = "click" /\ O.dlg # (IF cur = 0 THEN 1 ELSE 0) -> "the file dialog does not open exactly when the page is idle"
                    [] OTHER -> Shows(O))
  /\ IF why' # "" \/ i = Len(K.acts) THEN ph' = "end" /\ i' = i ELSE ph' = "act" /\ i' = i + 1
Report == ph = "end" /\ PrintT(<<"D", c, IF why # "" THEN why ELSE K.bad, i>>) /\ ph' = "over" /\ UNCHANGED <<page, c, i, why>>
Next == Act \/ See \/ Judge \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
