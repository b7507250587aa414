----------------------------- MODULE EncoderApi -----------------------------
(* One encoder as its user sees it: calls, the compressions of their chunks,
   failures, results, destruction. Everything the user may rely on about the
   background thread is here; nothing about how it is done.
   fault: "no"   nothing failed in the current call
          "may"  something failed that the call may or may not survive
                 (an allocation, the creation of a thread)
          "must" a compression failed: the call has to throw                  *)
EXTENDS Naturals, FiniteSets

VARIABLES st,     \* "none" | "idle" | "busy" | "closing"
          n,      \* chunks of the current call
          done,   \* chunks of the current call that have been compressed
          act,    \* chunks being compressed right now
          fault
vars == <<st, n, done, act, fault>>

Init == st = "none" /\ n = 0 /\ done = {} /\ act = {} /\ fault = "no"

New == st = "none" /\ st' = "idle" /\ UNCHANGED <<n, done, act, fault>>
Call(k) == st = "idle" /\ st' = "busy" /\ n' = k /\ done' = {} /\ act' = {} /\ fault' = "no"
Begin(c) == st = "busy" /\ c \in (1..n) \ act /\ act' = act \cup {c} /\ UNCHANGED <<st, n, done, fault>>
EndOk(c) == st = "busy" /\ c \in act /\ act' = act \ {c} /\ done' = done \cup {c} /\ UNCHANGED <<st, n, fault>>
EndFail(c) == st = "busy" /\ c \in act /\ act' = act \ {c} /\ fault' = "must" /\ UNCHANGED <<st, n, done>>
Fault == st = "busy" /\ fault' = (IF fault = "must" THEN "must" ELSE "may") /\ UNCHANGED <<st, n, done, act>>
Return == st = "busy" /\ act = {} /\ done = 1..n /\ fault # "must" /\ st' = "idle" /\ UNCHANGED <<n, done, act, fault>>
Throw == st = "busy" /\ act = {} /\ fault # "no" /\ st' = "idle" /\ UNCHANGED <<n, done, act, fault>>
Delete == st = "idle" /\ st' = "closing" /\ UNCHANGED <<n, done, act, fault>>
Deleted == st = "closing" /\ act = {} /\ st' = "none" /\ UNCHANGED <<n, done, act, fault>>

Next == New \/ (\E k \in 0..8 : Call(k)) \/ (\E c \in 1..8 : Begin(c) \/ EndOk(c) \/ EndFail(c))
        \/ Fault \/ Return \/ Throw \/ Delete \/ Deleted
Spec == Init /\ [][Next]_vars
=============================================================================
