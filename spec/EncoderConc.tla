----------------------------- MODULE EncoderConc -----------------------------
(* The protocol between PointcloudEncoder::encode (thread M) and
   PointcloudEncoder::compressionWorker (thread W), one action per stretch of code
   between two synchronization operations (cloudini.cpp). M makes up to MaxCalls calls of
   up to MaxChunks chunks and then, at any moment between calls, destroys the encoder.
   Compressions, allocations and the re-creation of the worker may fail (MaxFaults).
   Waits may wake up spuriously (MaxSpur).
   Variant "ok" is the code as it is; the other variants are mistakes the checker has to
   find (a test of the model, run by the check).                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxCalls, MaxChunks, MaxFaults, MaxSpur, Variant

VARIABLES pc,        \* what M does next
          wpc,       \* what W does next ("none": no thread, "ended": finished, not joined)
          mutex,     \* "-" | "M" | "W"
          mwait, wwait,   \* condition variables: "-" | "wait" | "sig"
          has, cdone, exit, failed,   \* has_data_to_compress_, compression_done_, should_exit_, worker_failed_
          content,   \* the two scratch buffers: <<call, chunk>> each
          mb, wb,    \* which of them M fills (buffer_) and W reads (buffer_compressing_)
          out,       \* chunks written to the output of the current call
          size,      \* compressed_size_, in chunks
          call, nch, i, nxt, err,    \* M's position
          faults, spur,
          hst, hdone, hact, hfault, late, \* history variables: the user's view
          plan       \* what to make happen in the real code: calls, faults, schedule

vars == <<pc, wpc, mutex, mwait, wwait, has, cdone, exit, failed, content, mb, wb, out, size, call, nch, i, nxt, err, faults, spur, hst, hdone, hact, hfault, late, plan>>
sync == <<has, cdone, exit, failed>>
bufs == <<content, mb, wb>>
pos == <<call, nch, i, nxt, err>>
hist == <<hst, hdone, hact, hfault>>

Init == /\ pc = "idle" /\ wpc = "w_test" /\ mutex = "-" /\ mwait = "-" /\ wwait = "-"
        /\ has = FALSE /\ cdone = FALSE /\ exit = FALSE /\ failed = FALSE
        /\ content = <<<<0, 0>>, <<0, 0>>>> /\ mb = 1 /\ wb = 2
        /\ out = <<>> /\ size = 0 /\ call = 0 /\ nch = 0 /\ i = 0 /\ nxt = "" /\ err = FALSE
        /\ faults = 0 /\ spur = 0 /\ hst = "idle" /\ hdone = {} /\ hact = {} /\ hfault = "no" /\ late = FALSE
        /\ plan = ""

Free == mutex = "-"
KeepPlan == UNCHANGED plan

--------------------------------------------------------------------------------
(* thread M *)
StartCall(k) ==
  /\ pc = "idle" /\ call < MaxCalls
  /\ call' = call + 1 /\ nch' = k /\ i' = 1 /\ err' = FALSE /\ nxt' = ""
  /\ hst' = "busy" /\ hdone' = {} /\ hact' = {} /\ hfault' = "no"
  /\ pc' = "respawn"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, bufs, out, size, faults, spur, late>>

Respawn == \* lock; need_respawn = worker_failed_; unlock
  /\ pc = "respawn" /\ Free
  /\ pc' = IF failed /\ Variant # "norespawn" THEN "join" ELSE "reset"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

JoinOld ==
  /\ pc = "join" /\ wpc \in {"ended", "none"}
  /\ wpc' = "none" /\ pc' = "create"
  /\ UNCHANGED <<mutex, mwait, wwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

Create ==
  /\ pc = "create"
  /\ wpc' = "w_test" /\ wwait' = "-" /\ pc' = "clear"
  /\ UNCHANGED <<mutex, mwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

CreateFails ==
  /\ pc = "create" /\ faults < MaxFaults /\ faults' = faults + 1
  /\ hfault' = (IF hfault = "must" THEN "must" ELSE "may") /\ err' = TRUE /\ pc' = "ret"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, bufs, out, size, call, nch, i, nxt, spur, hst, hdone, hact, late>>

Clear ==
  /\ pc = "clear" /\ Free /\ failed' = FALSE /\ pc' = "reset"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, has, cdone, exit, bufs, out, size, pos, faults, spur, hist, late>>

Reset ==
  /\ pc = "reset" /\ Free
  /\ size' = 0 /\ exit' = FALSE /\ has' = FALSE /\ cdone' = TRUE /\ out' = <<>>
  /\ nxt' = IF nch = 0 THEN "fin" ELSE "hand"
  /\ failed' = IF Variant = "norespawn" THEN FALSE ELSE failed
  /\ pc' = IF nch = 0 THEN "w_test" ELSE "stage"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, bufs, call, nch, i, err, faults, spur, hist, late>>

Stage == \* serialize the next chunk into buffer_
  /\ pc = "stage"
  /\ content' = [content EXCEPT ![mb] = <<call, i>>]
  /\ pc' = IF Variant = "nowait" THEN "hand" ELSE "w_test"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, mb, wb, out, size, pos, faults, spur, hist, late>>

StageFails == \* out of memory
  /\ pc = "stage" /\ faults < MaxFaults /\ faults' = faults + 1
  /\ hfault' = (IF hfault = "must" THEN "must" ELSE "may") /\ err' = TRUE
  /\ pc' = IF Variant = "noguard" THEN "ret" ELSE "g_test"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, bufs, out, size, call, nch, i, nxt, spur, hst, hdone, hact, late>>

(* waitForCompressionComplete: "w_test" locks and tests; when it has to wait it still owns
   the mutex at "w_sleep"; after a wake-up it owns it again at "w_retest" *)
WTest(at) ==
  /\ pc = at
  /\ IF at = "w_retest" THEN mutex = "M" ELSE Free
  /\ IF cdone \/ failed
       THEN /\ mutex' = "-"
            /\ IF failed THEN err' = TRUE /\ pc' = "g_test"
                         ELSE err' = err /\ pc' = IF nxt = "fin" THEN "g_test" ELSE "hand"
       ELSE mutex' = "M" /\ pc' = "w_sleep" /\ err' = err
  /\ UNCHANGED <<wpc, mwait, wwait, sync, bufs, out, size, call, nch, i, nxt, faults, spur, hist, late>>

Sleep == \* pthread_cond_wait: releases and sleeps, in one step
  /\ pc \in {"w_sleep", "g_sleep"} /\ mutex = "M"
  /\ mutex' = "-" /\ mwait' = "wait" /\ pc' = IF pc = "w_sleep" THEN "w_wake" ELSE "g_wake"
  /\ UNCHANGED <<wpc, wwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

Wake ==
  /\ pc \in {"w_wake", "g_wake"} /\ Free
  /\ \/ mwait = "sig" /\ spur' = spur
     \/ mwait = "wait" /\ spur < MaxSpur /\ spur' = spur + 1
  /\ mutex' = "M" /\ mwait' = "-" /\ pc' = IF pc = "w_wake" THEN "w_retest" ELSE "g_retest"
  /\ UNCHANGED <<wpc, wwait, sync, bufs, out, size, pos, faults, hist, late>>

Hand == \* lock; swap; has_data := true; done := false; unlock
  /\ pc = "hand" /\ Free
  /\ mb' = wb /\ wb' = mb /\ has' = TRUE
  /\ cdone' = IF Variant = "donelate" THEN cdone ELSE FALSE
  /\ pc' = IF Variant = "notifyfirst" THEN "advance" ELSE "notify"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, exit, failed, content, out, size, pos, faults, spur, hist, late>>

Advance == \* next chunk, or the final wait
  /\ i' = i + 1
  /\ IF i < nch THEN pc' = "stage" /\ nxt' = "hand"
                ELSE pc' = (IF Variant = "nofinal" THEN "ret" ELSE "w_test") /\ nxt' = "fin"

NotifyW ==
  /\ pc = "notify"
  /\ wwait' = IF wwait = "wait" THEN "sig" ELSE wwait
  /\ Advance
  /\ UNCHANGED <<wpc, mutex, mwait, sync, bufs, out, size, call, nch, err, faults, spur, hist, late>>

AdvanceOnly ==
  /\ pc = "advance" /\ Advance
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, bufs, out, size, call, nch, err, faults, spur, hist, late>>

GTest(at) == \* the guard that runs on every way out
  /\ pc = at
  /\ IF at = "g_retest" THEN mutex = "M" ELSE Free
  /\ IF cdone \/ failed THEN mutex' = "-" /\ pc' = "ret"
                        ELSE mutex' = "M" /\ pc' = "g_sleep"
  /\ UNCHANGED <<wpc, mwait, wwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

Ret ==
  /\ pc = "ret" /\ pc' = "idle" /\ hst' = "idle"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, bufs, out, size, pos, faults, spur, hdone, hact, hfault, late>>

Destroy ==
  /\ pc = "idle" /\ hst' = "closing"
  /\ pc' = IF wpc = "none" THEN "x_end" ELSE "x_flag"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, bufs, out, size, pos, faults, spur, hdone, hact, hfault, late>>

XFlag ==
  /\ pc = "x_flag" /\ Free /\ exit' = TRUE
  /\ pc' = IF Variant = "nonotify" THEN "x_join" ELSE "x_notify"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, has, cdone, failed, bufs, out, size, pos, faults, spur, hist, late>>

XNotify ==
  /\ pc = "x_notify" /\ wwait' = (IF wwait = "wait" THEN "sig" ELSE wwait) /\ pc' = "x_join"
  /\ UNCHANGED <<wpc, mutex, mwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

XJoin ==
  /\ pc = "x_join" /\ wpc = "ended" /\ wpc' = "none" /\ pc' = "x_end"
  /\ UNCHANGED <<mutex, mwait, wwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

XEnd ==
  /\ pc = "x_end" /\ pc' = "gone" /\ hst' = "none"
  /\ UNCHANGED <<wpc, mutex, mwait, wwait, sync, bufs, out, size, pos, faults, spur, hdone, hact, hfault, late>>

MStep == Respawn \/ JoinOld \/ Create \/ CreateFails \/ Clear \/ Reset \/ Stage \/ StageFails \/ WTest("w_test")
         \/ WTest("w_retest") \/ Sleep \/ Wake \/ Hand \/ NotifyW \/ AdvanceOnly \/ GTest("g_test") \/ GTest("g_retest") \/ Ret
         \/ XFlag \/ XNotify \/ XJoin \/ XEnd

--------------------------------------------------------------------------------
(* thread W *)
KTest(at) ==
  /\ wpc = at
  /\ IF at = "w_retest" THEN mutex = "W" ELSE Free
  /\ IF has \/ exit
       THEN mutex' = "-" /\ (IF exit THEN wpc' = "ended" /\ has' = has ELSE wpc' = "begin" /\ has' = FALSE)
       ELSE mutex' = "W" /\ wpc' = "w_sleep" /\ has' = has
  /\ UNCHANGED <<pc, mwait, wwait, cdone, exit, failed, bufs, out, size, pos, faults, spur, hist, late>>

KSleep ==
  /\ wpc = "w_sleep" /\ mutex = "W" /\ mutex' = "-" /\ wwait' = "wait" /\ wpc' = "w_wake"
  /\ UNCHANGED <<pc, mwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

KWake ==
  /\ wpc = "w_wake" /\ Free
  /\ \/ wwait = "sig" /\ spur' = spur
     \/ wwait = "wait" /\ spur < MaxSpur /\ spur' = spur + 1
  /\ mutex' = "W" /\ wwait' = "-" /\ wpc' = "w_retest"
  /\ UNCHANGED <<pc, mwait, sync, bufs, out, size, pos, faults, hist, late>>

Chunk(b) == content[b][2]

Begin ==
  /\ wpc = "begin" /\ wpc' = "end"
  /\ hact' = hact \cup {Chunk(wb)}
  /\ late' = (late \/ hst # "busy")
  /\ UNCHANGED <<pc, mutex, mwait, wwait, sync, bufs, out, size, pos, faults, spur, hst, hdone, hfault>>

EndOk == \* the compressed chunk is in the output
  /\ wpc = "end" /\ wpc' = "count"
  /\ out' = Append(out, content[wb])
  /\ hact' = hact \ {Chunk(wb)} /\ hdone' = hdone \cup {Chunk(wb)}
  /\ late' = (late \/ hst # "busy")
  /\ UNCHANGED <<pc, mutex, mwait, wwait, sync, bufs, size, pos, faults, spur, hst, hfault>>

EndFail ==
  /\ wpc = "end" /\ wpc' = "fail" /\ faults < MaxFaults /\ faults' = faults + 1
  /\ hact' = hact \ {Chunk(wb)} /\ hfault' = "must"
  /\ late' = (late \/ hst # "busy")
  /\ UNCHANGED <<pc, mutex, mwait, wwait, sync, bufs, out, size, pos, spur, hst, hdone>>

Count == \* lock; compressed_size_ += ...; compression_done_ := true; unlock
  /\ wpc = "count" /\ Free
  /\ size' = size + 1 /\ cdone' = TRUE /\ wpc' = "tell"
  /\ late' = (late \/ hst # "busy")
  /\ UNCHANGED <<pc, mutex, mwait, wwait, has, exit, failed, bufs, out, pos, faults, spur, hist>>

Tell ==
  /\ wpc = "tell" /\ mwait' = (IF mwait = "wait" THEN "sig" ELSE mwait) /\ wpc' = "w_test"
  /\ UNCHANGED <<pc, mutex, wwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

Fail ==
  /\ wpc = "fail" /\ Free /\ failed' = TRUE /\ wpc' = (IF Variant = "failquiet" THEN "ended" ELSE "failtell")
  /\ UNCHANGED <<pc, mutex, mwait, wwait, has, cdone, exit, bufs, out, size, pos, faults, spur, hist, late>>

FailTell ==
  /\ wpc = "failtell" /\ mwait' = (IF mwait = "wait" THEN "sig" ELSE mwait) /\ wpc' = "ended"
  /\ UNCHANGED <<pc, mutex, wwait, sync, bufs, out, size, pos, faults, spur, hist, late>>

WStep == KTest("w_test") \/ KTest("w_retest") \/ KSleep \/ KWake \/ Begin \/ EndOk \/ EndFail \/ Count \/ Tell \/ Fail \/ FailTell

--------------------------------------------------------------------------------
Next == /\ \/ \E k \in 0..MaxChunks : StartCall(k)
           \/ Destroy \/ MStep \/ WStep
        /\ KeepPlan
Spec == Init /\ [][Next]_vars /\ WF_vars(MStep /\ KeepPlan) /\ WF_vars(WStep /\ KeepPlan)
        /\ WF_vars(Destroy /\ KeepPlan)

--------------------------------------------------------------------------------
(* what is checked *)
Working == wpc \in {"begin", "end", "count"}

(* a result that is returned as a success is complete, in order and correctly sized *)
ResultRight == pc = "ret" /\ ~err =>
  out = [k \in 1..nch |-> <<call, k>>] /\ size = nch /\ hfault # "must"
(* a failed compression always surfaces as an exception of the same call *)
FailureSurfaces == pc = "ret" /\ hfault = "must" => err
ThrowsOnlyOnFailure == pc = "ret" /\ err => hfault # "no"
(* between calls, and after destruction, the worker touches nothing *)
Quiet == pc \in {"ret", "idle", "gone"} => ~Working
NothingLate == ~late
(* the caller never fills the buffer that is being compressed; no swap under the worker *)
NoBufferRace == mb # wb /\ (pc = "stage" /\ Working => content[wb] = <<call, i - 1>>)
NoSwapRace == pc = "hand" /\ Free => ~Working /\ ~has
GoneMeansJoined == pc = "gone" => wpc = "none"
Safety == ResultRight /\ FailureSurfaces /\ ThrowsOnlyOnFailure /\ Quiet /\ NothingLate /\ NoBufferRace /\ NoSwapRace /\ GoneMeansJoined

(* every call ends and the destructor ends *)
Ends == (pc = "respawn") ~> (pc = "idle")
Destroyed == (pc \in {"x_flag", "x_end"}) ~> (pc = "gone")

(* refinement: the user sees an EncoderApi *)
Api == INSTANCE EncoderApi WITH st <- hst, n <- nch, done <- hdone, act <- hact, fault <- hfault
ApiInit == hst = "idle" /\ nch = 0 /\ hdone = {} /\ hact = {} /\ hfault = "no"
Refines == [][Api!Next]_<<hst, nch, hdone, hact, hfault>>
=============================================================================
