-------------------------------- MODULE Front --------------------------------
(***************************************************************************)
(* A front end of the WebAssembly module and the linear memory it manages  *)
(* by hand.  State: the blocks of the memory that are allocated.  A        *)
(* recorded history of the real front end must be a behaviour: it frees    *)
(* what it allocated and nothing else, touches only blocks it holds, gives *)
(* the module's functions input and output blocks that are large enough,   *)
(* holds no more memory after a repetition than before it, and each call   *)
(* of its interface ends with the value the message denotes, or an error   *)
(* exactly if the message denotes none.                                    *)
(* Events  malloc(p, n)   free(p)   read(p, n)   write(p, n)               *)
(*         call(fn, p, n, out, need, ret): need = bytes written at out     *)
(*         begin(api, may, must, again, want): may = 1: this value is right *)
(*           (2: any, 0: none),                                           *)
(*           must = 1: an error is wrong; again = 1: as the call before    *)
(*         end(ok, got)                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, live, bytes, before, cur, largest, verdict
vars == <<c, i, live, bytes, before, cur, largest, verdict>>
E(k, j) == Cases[k].ev[j]
Init == c \in 1..Len(Cases) /\ i = 1 /\ live = {} /\ bytes = 0 /\ before = 0 /\ cur = 0 /\ largest = 0 /\ verdict = "go"
(* n bytes at p are inside a block that is held *)
Inside(p, n) == n = 0 \/ \E b \in live : b[1] <= p /\ p + n <= b[1] + b[2]
Bad(v) == verdict' = v /\ UNCHANGED <<c, i, live, bytes, before, cur, largest>>
Go == i' = i + 1 /\ UNCHANGED <<c, verdict>>
Mem == UNCHANGED <<live, bytes>>
Malloc(e) == Go /\ UNCHANGED <<before, cur>> /\ largest' = (IF e.p # 0 /\ e.n > largest THEN e.n ELSE largest) /\ (IF e.p = 0 THEN Mem ELSE live' = live \cup {<<e.p, e.n>>} /\ bytes' = bytes + e.n)
Release(e) == IF e.p = 0 THEN Go /\ Mem /\ UNCHANGED <<before, cur, largest>>
              ELSE LET B == {b \in live : b[1] = e.p} IN
                   IF B = {} THEN Bad("WrongFree")
                   ELSE Go /\ UNCHANGED <<before, cur, largest>> /\ live' = live \ B /\ bytes' = bytes - (CHOOSE b \in B : TRUE)[2]
Touch(e) == IF Inside(e.p, e.n) THEN Go /\ Mem /\ UNCHANGED <<before, cur, largest>> ELSE Bad(IF e.k = "read" THEN "ReadOutside" ELSE "WriteOutside")
Call(e) == IF ~Inside(e.p, e.n) THEN Bad("InputOutside")
           ELSE IF ~Inside(e.out, e.need) THEN Bad("Overflow")
           ELSE Go /\ Mem /\ UNCHANGED <<before, cur, largest>>
Begin(e) == Go /\ Mem /\ cur' = i /\ before' = bytes /\ UNCHANGED largest
Set(s) == {s[j] : j \in DOMAIN s}
(* what the Python decoder returns: as many rows as points, every field where the header has it *)
Rows(w) == w.w * w.h
ArrayOf(w, g) == IF g.rows # Rows(w) THEN "Rows" ELSE IF g.step # w.step THEN "Step"
                 ELSE IF w.plain = 1 /\ (Len(g.fields) # Len(w.fields) \/ Set(g.fields) # Set(w.fields)) THEN "Fields"
                 ELSE IF w.plain = 0 /\ g.all # w.all THEN "Fields" ELSE "ok"
HeaderOf(w, g) == IF g = w THEN "ok" ELSE "Header"
(* what the Foxglove converter returns *)
CloudOf(w, g) == IF g.w # w.w \/ g.h # w.h \/ g.step # w.step \/ g.row # w.w * w.step THEN "Sizes"
                 ELSE IF g.fields # w.fields \/ g.head # w.head \/ g.dense # w.dense \/ g.big # 0 THEN "Meta"
                 ELSE IF g.n # w.w * w.h * w.step \/ g.dig # w.dig THEN "Data" ELSE "ok"
Value(b, e) == CASE b.api = "decode" -> (LET v == ArrayOf(b.want, e.got) IN IF v = "ok" THEN HeaderOf(b.want.hdr, e.got.hdr) ELSE v)
                 [] b.api = "header" -> HeaderOf(b.want.hdr, e.got.hdr)
                 [] b.api = "convert" -> CloudOf(b.want, e.got)
Ended(e) == LET b == E(c, cur) IN
            IF e.ok = 0 THEN (IF b.must = 1 THEN "Refused" ELSE "ok")
            ELSE IF b.may = 0 THEN "NotRefused" ELSE IF b.may = 2 THEN "ok" ELSE Value(b, e)
(* what stays between calls is a buffer, never those that larger ones replaced *)
Slack == 65536
End(e) == IF Ended(e) # "ok" THEN Bad(Ended(e))
          ELSE IF E(c, cur).again = 1 /\ bytes > before THEN Bad("Leak")
          ELSE IF bytes > 2 * largest + Slack THEN Bad("Leak")
          ELSE Go /\ Mem /\ UNCHANGED <<before, cur, largest>>
Step == verdict = "go" /\ i <= Len(Cases[c].ev) /\
  \E e \in {E(c, i)} :
    IF e.k = "malloc" THEN Malloc(e) ELSE IF e.k = "free" THEN Release(e) ELSE IF e.k = "call" THEN Call(e)
    ELSE IF e.k = "begin" THEN Begin(e) ELSE IF e.k = "end" THEN End(e) ELSE Touch(e)
(* results stay what they were: they are not views of the module's memory *)
Report == /\ verdict \in {"WrongFree", "ReadOutside", "WriteOutside", "InputOutside", "Overflow", "Rows", "Step", "Fields", "Header", "Sizes", "Meta", "Data", "Refused", "NotRefused", "Leak"} \/ i > Len(Cases[c].ev)
          /\ verdict # "end" /\ verdict' = "end"
          /\ PrintT(<<"D", c, IF verdict # "go" THEN verdict ELSE IF Cases[c].later = 1 THEN "ok" ELSE "Changed", i, cur>>)
          /\ UNCHANGED <<c, i, live, bytes, before, cur, largest>>
Next == Step \/ Report
Spec == Init /\ [][Next]_vars
(* the accounting is sound *)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN b[2] + Sum(S \ {b})
Accounted == bytes = Sum(live)
Disjoint == \A a, b \in live : a = b \/ a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
=============================================================================
