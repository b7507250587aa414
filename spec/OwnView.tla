------------------------------ MODULE OwnView -------------------------------
(***************************************************************************)
(* Cloud messages that own their data or view somebody else's.  State of a *)
(* slot: view = "-" no message, "e" empty, "o.." own storage with a given  *)
(* content, "x.." an external buffer; meta = a number standing for all     *)
(* other members (-1: not determined).  own = what the message's own       *)
(* storage holds ("" none), which matters when it views something else.    *)
(* An operation is <<name, slot, other slot (0: none), view that results   *)
(* from O, R, X and V, meta that results from O, R and X>>.                *)
(* This module defines the machine; OwnViewGen enumerates its behaviours,  *)
(* OwnViewTrace follows the recorded ones.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Slot(v, m, o) == [view |-> v, meta |-> m, own |-> o]
Absent == Slot("-", -1, "")
Fresh == Slot("e", -1, "")
IsOwn(s) == s.own # "" /\ s.view = s.own
Alive(st, i) == st[i].view # "-"
Enabled(st, op) ==
  CASE op[1] \in {"E", "O", "X"} -> ~Alive(st, op[2])
    [] op[1] \in {"P", "M"} -> ~Alive(st, op[2]) /\ Alive(st, op[3])
    [] op[1] \in {"C", "A"} -> Alive(st, op[2]) /\ Alive(st, op[3])
    [] op[1] \in {"R", "V", "D"} -> Alive(st, op[2])
(* what may be left where data moved away: nothing, or what was viewed there before if it is not storage that moved *)
LeftBehind(s) == {Slot(v, -1, o) : v \in (IF IsOwn(s) THEN {"e"} ELSE {"e", s.view}), o \in {"", s.own}}
(* the set of possible states after op *)
After(st, op) ==
  LET i == op[2] IN
  CASE op[1] = "E" -> {[st EXCEPT ![i] = Fresh]}
    [] op[1] = "O" -> {[st EXCEPT ![i] = Slot(op[4], op[5], IF op[4] = "e" THEN "" ELSE op[4])]}
    [] op[1] = "R" -> {[st EXCEPT ![i] = Slot(op[4], op[5], IF op[4] = "e" THEN "" ELSE op[4])]}
    [] op[1] = "X" -> {[st EXCEPT ![i] = Slot(op[4], op[5], "")]}
    [] op[1] = "V" -> {[st EXCEPT ![i] = Slot(op[4], @.meta, @.own)]}
    [] op[1] \in {"P", "C"} -> {[st EXCEPT ![i] = st[op[3]]]}
    [] op[1] \in {"M", "A"} -> IF i = op[3] THEN {st} ELSE {[st EXCEPT ![i] = st[op[3]], ![op[3]] = l] : l \in LeftBehind(st[op[3]])}
    [] op[1] = "D" -> {[st EXCEPT ![i] = Absent]}
(* every view is of the message's own storage or of an external buffer: nothing else is reachable *)
ViewsAreValid(st) == \A i \in DOMAIN st : st[i].view \in {"-", "e", "x0", "x1", "x2"} \/ IsOwn(st[i])
=============================================================================
