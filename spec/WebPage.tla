------------------------------ MODULE WebPage ------------------------------
(***************************************************************************)
(* The compression tester of cloudini_web: a page that takes one file at a *)
(* time, by drag and drop or through a file dialog, and shows what it      *)
(* found.  Work goes on in the background; meanwhile the page takes        *)
(* nothing, and a dialog opened earlier may still deliver a file.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES
  cur,    \* file under way, 0: idle
  att,    \* files taken so far
  dlg,    \* open file dialogs
  shown   \* what the page shows: <<"start">>, <<"wrong name">>, <<"busy">> or <<"about", file, attempt>>
page == <<cur, att, dlg, shown>>

PageInit == cur = 0 /\ att = 0 /\ dlg = 0 /\ shown = <<"start">>

\* the user hands over file f (0: nothing that is a file); ok: is it called *.mcap?
Take(f, ok) ==
  IF cur # 0 \/ f = 0 THEN UNCHANGED <<cur, att, shown>>
  ELSE IF ~ok THEN shown' = <<"wrong name">> /\ UNCHANGED <<cur, att>>
  ELSE cur' = f /\ att' = att + 1 /\ shown' = <<"busy">>
Drop(f, ok) == Take(f, ok) /\ UNCHANGED dlg
Click == dlg' = (IF cur = 0 THEN dlg + 1 ELSE dlg) /\ UNCHANGED <<cur, att, shown>>
Choose(f, ok) == dlg > 0 /\ dlg' = dlg - 1 /\ Take(f, ok)
Cancel == dlg > 0 /\ dlg' = dlg - 1 /\ UNCHANGED <<cur, att, shown>>
Idle == UNCHANGED page
Finish == cur # 0 /\ cur' = 0 /\ shown' = <<"about", cur, att>> /\ UNCHANGED <<att, dlg>>
=============================================================================
