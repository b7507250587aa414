------------------------------- MODULE WebGen -------------------------------
(***************************************************************************)
(* What a user and the browser's event loop can do to the page: checked    *)
(* exhaustively (one file at a time, the result shown is that of the last  *)
(* file taken, the page becomes usable again) and, under -simulate, the    *)
(* source of the histories that are replayed on the real page.             *)
(***************************************************************************)
EXTENDS WebPage, TLC, IOUtils

Files == atoi(IOEnv.WEB_FILES)    \* the last one is not called *.mcap
Len0 == atoi(IOEnv.WEB_LEN)
MaxTicks == 40
VARIABLES h, left                  \* history; background steps that remain (at least)
vars == <<page, h, left>>
Ok(f) == f < Files
Init == PageInit /\ h = <<>> /\ left = 0
Add(a) == h' = Append(h, a)
Begun == left' = IF cur = 0 /\ cur' # 0 THEN 1 ELSE left
Next ==
  /\ Len(h) < Len0
  /\ \/ \E f \in 0..Files : Drop(f, Ok(f)) /\ Add(<<"drop", f>>) /\ Begun
     \/ dlg = 0 /\ Click /\ Add(<<"click", 0>>) /\ UNCHANGED left
     \/ \E f \in 1..Files : Choose(f, Ok(f)) /\ Add(<<"choose", f>>) /\ Begun
     \/ Cancel /\ Add(<<"cancel", 0>>) /\ UNCHANGED left
     \/ \E k \in 0..1 : Idle /\ Add(<<"tick", k>>) /\ UNCHANGED left
     \/ Idle /\ Add(<<"over", 0>>) /\ UNCHANGED left
     \/ Idle /\ Add(<<"leave", 0>>) /\ UNCHANGED left
     \/ IF cur # 0 THEN Finish /\ Add(<<"finish", 0>>) /\ left' = 0 ELSE Idle /\ Add(<<"finish", 0>>) /\ UNCHANGED left
Emit == Len(h) = Len0 /\ PrintT(<<"S", h>>) /\ h' = Append(h, <<"end", 0>>) /\ UNCHANGED <<page, left>>
Spec == Init /\ [][Next \/ Emit]_vars

OneAtATime == cur \in 0..(Files - 1) /\ (cur # 0 <=> shown = <<"busy">>)
TakenShown == (cur = 0 /\ att > 0 /\ shown[1] = "about") => shown[3] = att
DialogsIdle == dlg \in {0, 1}
Reusable == [][cur # 0 => \/ cur' = cur /\ att' = att /\ shown' = shown
                          \/ cur' = 0 /\ shown' = <<"about", cur, att>>]_vars
=============================================================================
