---------------------------- MODULE EncoderTrace ----------------------------
(* Histories recorded from the real encoder under the controlled scheduler, checked event
   by event against EncoderApi. A case: [ev: sequence of events]; events:
     ["new"] ["new_ok"] ["new_throw"]      construction
     ["call", n, seen]      encode called on a cloud of n chunks; seen = 0: the chunks
                            cannot be told apart, compressions are not tracked
     ["b", c] ["e", c, ok, same]   compression of chunk c begins / ends (ok = 0: it was made
                            to fail); same = 0: its input changed meanwhile
     ["fault"]              an allocation or the creation of a thread was made to fail
     ["ret", right, busy] ["thr", _, busy]  the call returned (right: the bytes and the size
                            of the unthreaded encoding) / threw; busy: a compression was
                            running at that moment
     ["late"]               the output changed after the call
     ["del"] ["deld"]       destruction begins / ends
     ["hang", why]          all threads blocked, or a crash                              *)
EXTENDS EncoderApi, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, seen, bad
tvars == <<st, n, done, act, fault, c, l, seen, bad>>
TInit == Init /\ c \in 1..Len(Cases) /\ l = 1 /\ seen = TRUE /\ bad = ""
E == Cases[c].ev[l]
Is(s) == E[1] = s
Keep == UNCHANGED <<c, seen, bad>>
Step ==
  \/ Is("new") /\ st = "none" /\ st' = "none" /\ UNCHANGED <<n, done, act, fault>> /\ Keep
  \/ Is("new_ok") /\ New /\ Keep
  \/ Is("new_throw") /\ st = "none" /\ UNCHANGED vars /\ Keep
  \/ /\ Is("call") /\ st = "idle" /\ st' = "busy" /\ n' = E[2] /\ act' = {} /\ fault' = "no"
     /\ done' = IF E[3] = 1 THEN {} ELSE 1..E[2]
     /\ seen' = (E[3] = 1) /\ UNCHANGED <<c, bad>>
  \/ Is("b") /\ seen /\ Begin(E[2]) /\ Keep
  \/ Is("e") /\ seen /\ E[3] = 1 /\ E[4] = 1 /\ EndOk(E[2]) /\ Keep
  \/ Is("e") /\ seen /\ E[3] = 0 /\ E[4] = 1 /\ EndFail(E[2]) /\ Keep
  \/ Is("b") /\ ~seen /\ st = "busy" /\ UNCHANGED vars /\ Keep
  \/ Is("e") /\ ~seen /\ st = "busy" /\ E[4] = 1 /\ fault' = (IF E[3] = 0 THEN "must" ELSE fault) /\ UNCHANGED <<st, n, done, act>> /\ Keep
  \/ Is("fault") /\ st = "busy" /\ Fault /\ Keep
  \/ Is("fault") /\ st = "none" /\ UNCHANGED vars /\ Keep
  \/ Is("ret") /\ E[2] = 1 /\ E[3] = 0 /\ Return /\ Keep
  \/ Is("thr") /\ E[3] = 0 /\ Throw /\ Keep
  \/ Is("del") /\ Delete /\ Keep
  \/ Is("deld") /\ Deleted /\ Keep
TNext ==
  \/ l <= Len(Cases[c].ev) /\ bad = "" /\ Step /\ l' = l + 1
  \/ /\ l <= Len(Cases[c].ev) /\ bad = "" /\ ~ENABLED Step
     /\ bad' = E[1] /\ PrintT(<<"D", c, "bad", l>>)
     /\ UNCHANGED <<st, n, done, act, fault, c, l, seen>>
  \/ /\ l = Len(Cases[c].ev) + 1 /\ bad = ""
     /\ bad' = (IF st = "none" THEN "ok" ELSE "unfinished") /\ PrintT(<<"D", c, IF st = "none" THEN "ok" ELSE "unfinished", l>>)
     /\ UNCHANGED <<st, n, done, act, fault, c, l, seen>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
