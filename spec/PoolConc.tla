------------------------------ MODULE PoolConc ------------------------------
(* The pool inside the subscriber, one step per access to shared state. The executor's thread
   delivers messages and destroys the subscriber at the end; user threads let go of clouds.
   Rules = "ok": the protocol of the code. Mutants: "nolock" a release without the lock,
   "rawpool" the pool dies with the subscriber while clouds are out, "noclear" the destructor
   does not empty the list it deletes, "leak" nothing is deleted when the pool is full.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxMsgs, PoolMax, MaxObj, Rules
Main == "main"
Procs == Threads \cup {Main}
NoOne == "none"
Objs == 1..MaxObj
VARIABLES pc, reg, len, pool, poolAlive, lock, state, hand, sent, err
vars == <<pc, reg, len, pool, poolAlive, lock, state, hand, sent, err>>
(* state[o]: "new" not allocated, "out" with the executor or a user, "idle", "freed"
   hand[t]: objects thread t still holds; reg[p]: the object a process works on            *)
Init == /\ pc = [p \in Procs |-> "idle"] /\ reg = [p \in Procs |-> 0] /\ len = [p \in Procs |-> 0]
        /\ pool = <<>> /\ poolAlive = TRUE /\ lock = NoOne
        /\ state = [o \in Objs |-> "new"] /\ hand = [t \in Procs |-> {}] /\ sent = 0 /\ err = ""
Pc(p, x) == pc' = [pc EXCEPT ![p] = x]
Fail(w) == err' = IF err = "" THEN w ELSE err
Locked == Rules # "nolock"
(* ---- delivery *)
AcqLock == pc[Main] = "idle" /\ sent < MaxMsgs /\ (\E o \in Objs : state[o] = "new") /\ lock = NoOne /\ lock' = Main /\ Pc(Main, "pop") /\ sent' = sent + 1
           /\ UNCHANGED <<reg, len, pool, poolAlive, state, hand, err>>
Pop == /\ pc[Main] = "pop"
       /\ IF pool # <<>>
          THEN LET o == pool[Len(pool)] IN
               reg' = [reg EXCEPT ![Main] = o] /\ pool' = SubSeq(pool, 1, Len(pool) - 1) /\ state' = [state EXCEPT ![o] = "out"] /\ (IF state[o] # "idle" THEN Fail("handed out twice") ELSE UNCHANGED err)
          ELSE LET o == CHOOSE x \in Objs : state[x] = "new" /\ \A y \in Objs : state[y] = "new" => x <= y IN
               reg' = [reg EXCEPT ![Main] = o] /\ state' = [state EXCEPT ![o] = "out"] /\ UNCHANGED <<pool, err>>
       /\ Pc(Main, "unl") /\ UNCHANGED <<len, poolAlive, lock, hand, sent>>
Unlock == pc[Main] = "unl" /\ lock' = NoOne /\ Pc(Main, "call") /\ UNCHANGED <<reg, len, pool, poolAlive, state, hand, sent, err>>
(* the callback keeps the cloud (for some thread) or not; a malformed message drops it, too *)
Give == pc[Main] = "call" /\ (\E t \in Threads : hand' = [hand EXCEPT ![t] = @ \cup {reg[Main]}]) /\ reg' = [reg EXCEPT ![Main] = 0] /\ Pc(Main, "idle")
        /\ UNCHANGED <<len, pool, poolAlive, lock, state, sent, err>>
NotKept == pc[Main] = "call" /\ Pc(Main, "rel") /\ UNCHANGED <<reg, len, pool, poolAlive, lock, state, hand, sent, err>>
(* ---- release, by anybody *)
LetGo(t) == pc[t] = "idle" /\ t # Main /\ (\E o \in hand[t] : reg' = [reg EXCEPT ![t] = o] /\ hand' = [hand EXCEPT ![t] = @ \ {o}]) /\ Pc(t, "rel")
            /\ UNCHANGED <<len, pool, poolAlive, lock, state, sent, err>>
RelLock(p) == pc[p] = "rel" /\ (Locked => lock = NoOne) /\ lock' = (IF Locked THEN p ELSE lock) /\ Pc(p, "size") /\ (IF ~poolAlive /\ Rules = "rawpool" THEN Fail("pool used after its end") ELSE UNCHANGED err)
              /\ UNCHANGED <<reg, len, pool, poolAlive, state, hand, sent>>
Size(p) == pc[p] = "size" /\ len' = [len EXCEPT ![p] = Len(pool)] /\ Pc(p, "put") /\ UNCHANGED <<reg, pool, poolAlive, lock, state, hand, sent, err>>
Put(p) == LET o == reg[p] IN
  /\ pc[p] = "put"
  /\ IF len[p] < PoolMax
     THEN pool' = (IF Locked \/ Len(pool) = len[p] THEN Append(pool, o) ELSE Append(SubSeq(pool, 1, IF len[p] <= Len(pool) THEN len[p] ELSE Len(pool)), o)) /\ state' = [state EXCEPT ![o] = "idle"] /\ (IF state[o] # "out" THEN Fail("released twice") ELSE UNCHANGED err)
     ELSE pool' = pool /\ (IF Rules = "leak" THEN UNCHANGED <<state, err>> ELSE state' = [state EXCEPT ![o] = "freed"] /\ (IF state[o] # "out" THEN Fail("released twice") ELSE UNCHANGED err))
  /\ reg' = [reg EXCEPT ![p] = 0] /\ Pc(p, "relun") /\ UNCHANGED <<len, poolAlive, lock, hand, sent>>
RelUnlock(p) == pc[p] = "relun" /\ lock' = (IF Locked THEN NoOne ELSE lock) /\ Pc(p, IF p = Main /\ ~poolAlive THEN "gone" ELSE "idle") /\ UNCHANGED <<reg, len, pool, poolAlive, state, hand, sent, err>>
(* ---- destruction of the subscriber *)
DLock == pc[Main] = "idle" /\ lock = NoOne /\ lock' = Main /\ Pc(Main, "dfree") /\ UNCHANGED <<reg, len, pool, poolAlive, state, hand, sent, err>>
DFree == /\ pc[Main] = "dfree"
         /\ state' = [o \in Objs |-> IF \E i \in 1..Len(pool) : pool[i] = o THEN "freed" ELSE state[o]]
         /\ (IF \E i \in 1..Len(pool) : state[pool[i]] # "idle" THEN Fail("freed while in use") ELSE UNCHANGED err)
         /\ pool' = (IF Rules = "noclear" THEN pool ELSE <<>>) /\ poolAlive' = FALSE /\ Pc(Main, "dun") /\ UNCHANGED <<reg, len, lock, hand, sent>>
DUnlock == pc[Main] = "dun" /\ lock' = NoOne /\ Pc(Main, "gone") /\ UNCHANGED <<reg, len, pool, poolAlive, state, hand, sent, err>>
(* ---- the last cloud is let go: the list itself ends, with what is in it *)
Quiet == pc[Main] = "gone" /\ \A t \in Threads : pc[t] = "idle" /\ hand[t] = {}
Last == /\ Quiet /\ Pc(Main, "end")
        /\ state' = [o \in Objs |-> IF \E i \in 1..Len(pool) : pool[i] = o THEN "freed" ELSE state[o]]
        /\ (IF \E i \in 1..Len(pool) : state[pool[i]] # "idle" THEN Fail("freed twice") ELSE UNCHANGED err)
        /\ pool' = <<>> /\ UNCHANGED <<reg, len, poolAlive, lock, hand, sent>>
Done == pc[Main] = "end" /\ UNCHANGED vars
Next == AcqLock \/ Pop \/ Unlock \/ Give \/ NotKept \/ (\E p \in Procs : LetGo(p) \/ RelLock(p) \/ Size(p) \/ Put(p) \/ RelUnlock(p)) \/ DLock \/ DFree \/ DUnlock \/ Last \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoError == err = ""
Bounded == Len(pool) <= PoolMax
Distinct == \A i, j \in 1..Len(pool) : i # j => pool[i] # pool[j]
NotShared == \A t, u \in Procs : t # u => hand[t] \cap hand[u] = {}
HeldIsOut == \A t \in Procs : \A o \in hand[t] : state[o] = "out"
NothingLeaks == pc[Main] = "end" => \A o \in Objs : state[o] \in {"new", "freed"}
Ends == <>(pc[Main] = "end")
=============================================================================
