----------------------------- MODULE WireTrace ------------------------------
(***************************************************************************)
(* The Cloudini wire format (versions 2 to 5) as a state machine that      *)
(* reads a payload value by value, used to judge recorded calls of the     *)
(* real encoder and decoder.  A case is a record                           *)
(*   mode   "enc": pay was written by the real encoder from `inp`          *)
(*          "dec": pay is an arbitrary byte string given to the decoder    *)
(*   ver, enc, comp, n, step, fields [t, res, off, skip], cap              *)
(*   pay    the payload bytes                                              *)
(*   infl   what stage 2 (LZ4/ZSTD) makes of every chunk: [ok, d]          *)
(*   inp    per field, per point: the original cell (mode "enc")           *)
(*   real   "ok" or "throw": what the real decoder did with pay            *)
(*   got    per field, per point: the cell the real decoder produced       *)
(*   outb, fill, step: the real output buffer and its former contents      *)
(* A cell is the value's 16-bit limbs; for a quantized float it is a range *)
(* <<lo, hi>> of quantized integers (those that denote the float; for      *)
(* inp those within half a resolution of it), <<>> for NaN, <<-1>> for a   *)
(* value no integer denotes.                                               *)
(***************************************************************************)
EXTENDS Bits64, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
ChunkPoints == 32768

(* ------------------------------- layout -------------------------------- *)
Size(t) == CASE t \in {1, 2} -> 1 [] t \in {3, 4} -> 2 [] t \in {5, 6, 7} -> 4 [] OTHER -> 8
Signed(t) == t \in {1, 3, 5, 9}
IntCol(t) == t \in {3, 4, 5, 6, 9, 10}
F32 == 7
F64 == 8

Lossy(k) == k.enc = 1
RECURSIVE LeadFrom(_, _)
LeadFrom(fs, i) == IF i > Len(fs) THEN i - 1 ELSE IF fs[i].t = F32 /\ fs[i].res THEN LeadFrom(fs, i + 1) ELSE i - 1
Lead(k) == LET m == IF Lossy(k) THEN LeadFrom(k.fields, 1) ELSE 0 IN IF m \in {3, 4} THEN m ELSE 0
V5(k) == k.ver >= 5 /\ Lossy(k) /\ \E i \in Lead(k) + 1 .. Len(k.fields) : IntCol(k.fields[i].t)

\* how field i is coded
Coding(k, i) ==
  LET f == k.fields[i] IN
  CASE k.enc = 0 -> "raw"
    [] f.t \in {1, 2} -> "raw"
    [] IntCol(f.t) -> "int"
    [] f.t = F32 -> IF Lossy(k) /\ f.res THEN (IF i <= Lead(k) THEN "q32" ELSE "q")
                    ELSE IF k.enc = 2 THEN "xor" ELSE "raw"
    [] f.t = F64 -> IF Lossy(k) /\ f.res THEN "q"
                    ELSE IF ~f.res /\ k.ver >= 4 THEN "gor" ELSE "xor"
    [] OTHER -> "bad"
\* indices of the fields interleaved per point, and of the V5 columns, in order
Regular(k) == SelectSeq([i \in 1..Len(k.fields) |-> i], LAMBDA i : ~(V5(k) /\ i > Lead(k) /\ IntCol(k.fields[i].t)))
Columns(k) == SelectSeq([i \in 1..Len(k.fields) |-> i], LAMBDA i : V5(k) /\ i > Lead(k) /\ IntCol(k.fields[i].t))
\* worst-case serialized size of a point
WorstField(k, i) == LET f == k.fields[i] IN
  CASE f.t \in {1, 2} -> 1 [] f.t \in {3, 4, 5, 6} -> 10 [] f.t \in {9, 10} -> 11
    [] f.t = F32 -> IF Lossy(k) /\ f.res THEN 10 ELSE 7 [] OTHER -> IF Lossy(k) /\ f.res THEN 10 ELSE 11
RECURSIVE SumTo(_, _)
SumTo(k, i) == IF i = 0 THEN 0 ELSE WorstField(k, i) + SumTo(k, i - 1)
WorstPoint(k) == SumTo(k, Len(k.fields))
Describes(k) == /\ k.step > 0
                /\ \A i \in 1..Len(k.fields) :
                      /\ k.fields[i].t \in 1..10
                      /\ k.fields[i].skip \/ k.fields[i].off + Size(k.fields[i].t) <= k.step

PlanOf(k) == TLCEval(
  [reg |-> TLCEval(Regular(k)), cols |-> TLCEval(Columns(k)), v5 |-> V5(k), worst |-> WorstPoint(k), desc |-> Describes(k),
   cod |-> TLCEval([i \in 1..Len(k.fields) |-> Coding(k, i)]), sz |-> TLCEval([i \in 1..Len(k.fields) |-> Size(k.fields[i].t)])])

(* ------------------------------- state --------------------------------- *)
VARIABLES
  c,      \* the case
  pl,     \* what its description makes of the fields: codings, order
  ph,     \* "frame", "pts", "sec", "run", "idx", "dv", "store", "done"
  fr,     \* number of chunks begun
  pp,     \* position in the payload (bytes consumed by the framing)
  pos, fend,  \* position in, and end of, the current chunk's serialized bytes
  base, cp,   \* points before this chunk, points in this chunk
  pt, fi, \* point within the chunk, position in the plan / column list
  prev,   \* per field: predictor
  win,    \* per field: Gorilla window <<leading, trailing>>, <<>> before the first
  sec,    \* section state of the V5 column being read
  loose,  \* set of forms the format tolerates but no encoder writes
  bad,    \* disagreements found
  res     \* "", "accept", "any", or "reject:why"
vars == <<c, pl, ph, fr, pp, pos, fend, base, cp, pt, fi, prev, win, sec, loose, bad, res>>

K == Cases[c]
P == pl
Src == IF K.comp = 0 THEN K.pay ELSE K.infl[fr].d

NoSec == [mode |-> 9, left |-> 0, val |-> Zero, run |-> 0, at |-> 0, cnt |-> 0]
Init == /\ c \in 1..Len(Cases)
        /\ ph = "plan" /\ pl = <<>> /\ fr = 0 /\ pp = 0 /\ pos = 0 /\ fend = 0 /\ base = 0 /\ cp = 0 /\ pt = 0 /\ fi = 1
        /\ prev = <<>> /\ win = <<>> /\ sec = NoSec /\ loose = {} /\ bad = {} /\ res = ""

Stop(r) == /\ res' = r
           /\ ph' = IF r = "accept" /\ K.real = "ok" /\ Len(K.outb) > 0 THEN "store" ELSE "done"
           /\ pt' = 0
           /\ UNCHANGED <<c, pl, fr, pp, pos, fend, base, cp, fi, prev, win, sec, loose, bad>>

(* ------------------------------ comparing ------------------------------ *)
Quant(i) == P.cod[i] \in {"q", "q32"}
Cmp(cell, i, v, nan) ==
  IF Quant(i)
  THEN IF nan THEN cell = <<>> ELSE Len(cell) = 2 /\ SLe(cell[1], v) /\ SLe(v, cell[2])
  ELSE cell = Trunc(v, P.sz[i])
\* disagreements on value v of field i at point p (from 0) of the cloud
Wrong(i, p, v, nan) ==
  (IF K.mode # "enc" \/ Cmp(K.inp[i][p + 1], i, v, nan) THEN {}
   ELSE {<<IF Quant(i) THEN "in-quant" ELSE "in-exact", i, p>>})
  \cup
  (IF K.real # "ok" \/ K.fields[i].skip \/ Cmp(K.got[i][p + 1], i, v, nan) THEN {}
   ELSE {<<IF Quant(i) THEN "got-quant" ELSE "got-exact", i, p>>})
Note(w) == bad' = IF bad = {} THEN w ELSE bad  \* the first disagreement is enough

\* integer columns: the value fits the field's type (else the format leaves it open)
InRange(i, v) == v = Ext(Trunc(v, P.sz[i]), P.sz[i], Signed(K.fields[i].t))

(* ------------------------------- framing ------------------------------- *)
EndOf(m) == IF K.comp = 0 THEN (IF K.ver >= 3 THEN pp + 4 + m ELSE Len(K.pay)) ELSE Len(K.infl[fr + 1].d)
\* begin the chunk whose stored bytes are pay[pp+4+1 .. pp+4+m] (version 2: all of pay)
Enter(m, points) ==
  /\ fr' = fr + 1
  /\ pp' = IF K.ver >= 3 THEN pp + 4 + m ELSE Len(K.pay)
  /\ pos' = IF K.comp = 0 THEN (IF K.ver >= 3 THEN pp + 4 ELSE 0) ELSE 0
  /\ fend' = EndOf(m)
  /\ cp' = points /\ pt' = 0 /\ fi' = 1
  /\ prev' = TLCEval([i \in 1..Len(K.fields) |-> Zero]) /\ win' = TLCEval([i \in 1..Len(K.fields) |-> <<>>])
  /\ sec' = NoSec
  /\ loose' = IF K.comp # 0 /\ Len(K.infl[fr + 1].d) > points * P.worst THEN loose \cup {"oversize"} ELSE loose
  /\ ph' = "pts"
  /\ UNCHANGED <<c, pl, base, bad, res>>

MagicAtStart == Len(K.pay) >= 10 /\ SubSeq(K.pay, 1, 10) = <<67, 76, 79, 85, 68, 73, 78, 73, 95, 86>>
Plan ==
  /\ ph = "plan" /\ ph' = "begin" /\ pl' = PlanOf(K)
  /\ UNCHANGED <<c, fr, pp, pos, fend, base, cp, pt, fi, prev, win, sec, loose, bad, res>>
Begin ==
  /\ ph = "begin"
  /\ IF ~P.desc THEN Stop("reject:description")
     ELSE IF MagicAtStart THEN Stop("any")
     ELSE IF K.ver >= 3 THEN ph' = "frame" /\ UNCHANGED <<c, pl, fr, pp, pos, fend, base, cp, pt, fi, prev, win, sec, loose, bad, res>>
     ELSE IF K.comp # 0 /\ Len(K.infl) = 0 THEN Stop("any")
     ELSE IF K.comp # 0 /\ ~K.infl[1].ok THEN Stop("reject:stage2")
     ELSE Enter(0, K.n)

Frame ==
  /\ ph = "frame"
  /\ IF pp = Len(K.pay)
     THEN IF base = K.n THEN Stop("accept") ELSE Stop("reject:short")
     ELSE IF base = K.n THEN Stop("reject:extra")
     ELSE IF pp + 4 > Len(K.pay) THEN Stop("reject:cut size")
     ELSE LET b(j) == K.pay[pp + j]
              m == b(1) + 256 * b(2) + 65536 * b(3) + 16777216 * (b(4) % 64)
              left == Len(K.pay) - pp - 4
          IN IF b(4) >= 64 \/ m > left THEN Stop("reject:chunk size")
             ELSE IF K.comp # 0 /\ Len(K.infl) <= fr THEN Stop("glue")
             ELSE IF K.comp # 0 /\ ~K.infl[fr + 1].ok THEN Stop("reject:stage2")
             ELSE Enter(m, IF K.n - base > ChunkPoints THEN ChunkPoints ELSE K.n - base)

(* ------------------------- fields within points ------------------------ *)
EndOfRegular ==
  IF K.ver >= 3 THEN pt = cp
  ELSE fi = 1 /\ pos = fend
Advance == IF fi = Len(P.reg) THEN fi' = 1 /\ pt' = pt + 1 ELSE fi' = fi + 1 /\ pt' = pt
Keep == UNCHANGED <<c, pl, ph, fr, pp, fend, base, cp, sec, res>>
Take(i, len, v, nan, pv) ==
  /\ pos' = pos + len
  /\ prev' = [prev EXCEPT ![i] = pv]
  /\ Note(Wrong(i, base + pt, v, nan))
  /\ Advance

Value ==
  /\ ph = "pts" /\ ~EndOfRegular /\ Len(P.reg) > 0
  /\ IF pt >= cp THEN Stop("reject:more points than declared")  \* version 2 only
     ELSE LET i == P.reg[fi]
              cod == P.cod[i]
              sz == P.sz[i]
              left == fend - pos
     IN CASE cod = "raw" ->
              IF left < sz THEN Stop("reject:cut raw")
              ELSE \E v \in {Word(Src, pos, sz)} : Take(i, sz, v, FALSE, v) /\ UNCHANGED <<win, loose>> /\ Keep
        [] cod = "xor" ->
              IF left < sz THEN Stop("reject:cut xor")
              ELSE \E w0 \in {Word(Src, pos, sz)} : \E v \in {Xor64(w0, prev[i])} : Take(i, sz, v, FALSE, v) /\ UNCHANGED <<win, loose>> /\ Keep
        [] cod \in {"int", "q", "q32"} ->
              IF left < 1 THEN Stop("reject:cut varint")
              ELSE IF Src[pos + 1] = 0 THEN
                IF cod = "int" THEN \E v \in {Add(prev[i], MinInt)} : Take(i, 1, v, FALSE, v) /\ UNCHANGED win /\ Keep
                                               /\ loose' = IF InRange(i, v) THEN loose ELSE loose \cup {"range"}
                ELSE Take(i, 1, Zero, TRUE, Zero) /\ UNCHANGED <<win, loose>> /\ Keep
              ELSE \E r \in {ReadVar(Src, pos, fend)} :
                IF r.st # "ok" THEN Stop("reject:varint")
                ELSE IF r.v = Zero THEN Stop("any")  \* an over-long 0: no meaning assigned
                ELSE \E d \in {Unzig(r.v)} : \E s \in {Add(prev[i], d)} :
                     \E v \in {IF cod = "q32" THEN Sext32(s) ELSE s} :
                        /\ Take(i, r.len, v, FALSE, v)
                        /\ loose' = (IF r.min THEN loose ELSE loose \cup {"long varint"})
                                    \cup (IF cod # "int" \/ InRange(i, v) THEN {} ELSE {"range"})
                        /\ UNCHANGED win /\ Keep
        [] cod = "gor" ->
              IF pt = 0 THEN IF left < 8 THEN Stop("reject:cut gorilla")
                             ELSE \E v \in {Word(Src, pos, 8)} : Take(i, 8, v, FALSE, v) /\ UNCHANGED <<win, loose>> /\ Keep
              ELSE IF left < 1 THEN Stop("reject:cut gorilla")
              ELSE LET flag == Src[pos + 1] % 2
                       ctrl == (Src[pos + 1] \div 2) % 2
                       lead == Bits(Src, pos, fend, 2, 5)[1]
                       mean == Bits(Src, pos, fend, 7, 6)[1] + 1
                       w == win[i]
                   IN IF flag = 0
                      THEN /\ Take(i, 1, prev[i], FALSE, prev[i]) /\ UNCHANGED win
                           /\ loose' = IF Src[pos + 1] = 0 THEN loose ELSE loose \cup {"padding"}
                           /\ Keep
                      ELSE IF ctrl = 0 THEN
                        IF w = <<>> THEN Stop("reject:no window")
                        ELSE LET m == 64 - w[1] - w[2]
                                 nb == (2 + m + 7) \div 8
                             IN IF left < nb THEN Stop("reject:cut gorilla")
                                ELSE \E b0 \in {Bits(Src, pos, fend, 2, m)} : \E b1 \in {Shl(b0, w[2])} : \E v \in {Xor64(prev[i], b1)} :
                                        /\ Take(i, nb, v, FALSE, v) /\ UNCHANGED win
                                        /\ loose' = IF (nb * 8 - 2 - m) = 0 \/ Bits(Src, pos, fend, 2 + m, nb * 8 - 2 - m) = Zero
                                                    THEN loose ELSE loose \cup {"padding"}
                                        /\ Keep
                      ELSE IF left < 2 THEN Stop("reject:cut gorilla")
                      ELSE IF lead + mean > 64 THEN Stop("reject:window")
                      ELSE LET nb == (13 + mean + 7) \div 8
                               tr == 64 - lead - mean
                           IN IF left < nb THEN Stop("reject:cut gorilla")
                              ELSE \E b0 \in {Bits(Src, pos, fend, 13, mean)} : \E b1 \in {Shl(b0, tr)} : \E v \in {Xor64(prev[i], b1)} :
                                      /\ Take(i, nb, v, FALSE, v)
                                      /\ win' = [win EXCEPT ![i] = <<lead, tr>>]
                                      /\ loose' = IF (nb * 8 - 13 - mean) = 0 \/ Bits(Src, pos, fend, 13 + mean, nb * 8 - 13 - mean) = Zero
                                                  THEN loose ELSE loose \cup {"padding"}
                                      /\ Keep
        [] OTHER -> Stop("glue")

\* a version 2 stream of no fields never ends within its points; no meaning
NoFields == ph = "pts" /\ ~EndOfRegular /\ Len(P.reg) = 0
            /\ (IF K.ver < 3 THEN Stop("any")
                ELSE pt' = cp /\ UNCHANGED <<c, pl, ph, fr, pp, pos, fend, base, cp, fi, prev, win, sec, loose, bad, res>>)

ChunkDone ==
  /\ base' = base + cp
  /\ ph' = "frame"
  /\ UNCHANGED <<c, pl, fr, pp, pos, fend, cp, pt, fi, prev, win, sec, bad, res>>

RegularDone ==
  /\ ph = "pts" /\ EndOfRegular
  /\ IF K.ver < 3 THEN
       IF pt = K.n THEN Stop("accept") ELSE Stop("any")  \* fewer points than declared: version 2 cannot tell
     ELSE IF P.v5 THEN ph' = "sec" /\ fi' = 1 /\ UNCHANGED <<c, pl, fr, pp, pos, fend, base, cp, pt, prev, win, sec, loose, bad, res>>
     ELSE IF pos = fend THEN ChunkDone /\ UNCHANGED loose
     ELSE ChunkDone /\ loose' = loose \cup {"trailing"}

(* --------------------------- V5 integer columns ------------------------ *)
Col == P.cols[fi]
ColDone == fi' = fi + 1 /\ ph' = "sec" /\ sec' = NoSec

Section ==  \* the mode byte and what follows it
  /\ ph = "sec" /\ fi <= Len(P.cols)
  /\ LET left == fend - pos
         sz == P.sz[Col] IN
     IF left < 1 THEN Stop("reject:no mode")
     ELSE LET mode == Src[pos + 1] IN
     CASE mode = 0 ->
            /\ ph' = "dv" /\ pos' = pos + 1 /\ pt' = 0 /\ sec' = [NoSec EXCEPT !.mode = 0]
            /\ UNCHANGED <<c, pl, fr, pp, fend, base, cp, fi, prev, win, loose, bad, res>>
       [] mode = 1 ->
            IF left < 3 THEN Stop("reject:palette count")
            ELSE LET cnt == Src[pos + 2] + 256 * Src[pos + 3]
                     ib == IF cnt = 0 THEN 0 ELSE (IndexBits(cnt) * cp + 7) \div 8
                 IN IF cnt = 0 THEN Stop("reject:empty palette")
                    ELSE IF left - 3 < cnt * sz + ib THEN Stop("reject:cut palette")
                    ELSE /\ ph' = "idx" /\ pt' = 0
                         /\ sec' = [NoSec EXCEPT !.mode = 1, !.cnt = cnt, !.at = pos + 3]
                         /\ pos' = pos + 3 + cnt * sz
                         /\ UNCHANGED <<c, pl, fr, pp, fend, base, cp, fi, prev, win, loose, bad, res>>
       [] mode \in {2, 3} ->
            IF left < 5 THEN Stop("reject:run count")
            ELSE IF Src[pos + 5] >= 64 THEN Stop("reject:run count too large")
            ELSE /\ ph' = "run" /\ pt' = 0
                 /\ sec' = [NoSec EXCEPT !.mode = mode, !.left = Src[pos + 2] + 256 * Src[pos + 3] + 65536 * Src[pos + 4] + 16777216 * Src[pos + 5]]
                 /\ pos' = pos + 5
                 /\ UNCHANGED <<c, pl, fr, pp, fend, base, cp, fi, prev, win, loose, bad, res>>
       [] OTHER -> Stop("reject:mode")

DeltaValue ==
  /\ ph = "dv"
  /\ IF pt = cp THEN ColDone /\ UNCHANGED <<c, pl, fr, pp, pos, fend, base, cp, pt, prev, win, loose, bad, res>>
     ELSE IF pos >= fend THEN Stop("reject:cut column")
     ELSE \E r \in {ReadVar(Src, pos, fend)} :
          LET z == Src[pos + 1] = 0
          IN IF r.st # "ok" THEN Stop("reject:varint")
             ELSE IF ~z /\ r.v = Zero THEN Stop("any")
             ELSE \E d \in {IF z THEN MinInt ELSE Unzig(r.v)} : \E v \in {Add(sec.val, d)} :
                  /\ pos' = pos + r.len /\ pt' = pt + 1 /\ sec' = [sec EXCEPT !.val = v]
                  /\ Note(Wrong(Col, base + pt, v, FALSE))
                  /\ loose' = (IF r.min THEN loose ELSE loose \cup {"long varint"})
                              \cup (IF InRange(Col, v) THEN {} ELSE {"range"})
                  /\ UNCHANGED <<c, pl, ph, fr, pp, fend, base, cp, fi, prev, win, res>>

PaletteValue ==
  /\ ph = "idx"
  /\ LET b == IndexBits(sec.cnt)
         sz == P.sz[Col] IN
     IF pt = cp THEN
       LET nb == (b * cp + 7) \div 8
           padb == nb * 8 - b * cp IN
       /\ pos' = pos + nb
       /\ loose' = IF padb = 0 \/ Bits(Src, pos, fend, b * cp, padb) = Zero THEN loose ELSE loose \cup {"padding"}
       /\ ColDone /\ UNCHANGED <<c, pl, fr, pp, fend, base, cp, pt, prev, win, bad, res>>
     ELSE \E ix \in {IF b = 0 THEN 0 ELSE Bits(Src, pos, fend, b * pt, b)[1]} :
          IF ix >= sec.cnt THEN Stop("reject:palette index")
          ELSE \E v \in {Word(Src, sec.at + ix * sz, sz)} :
               /\ Note(Wrong(Col, base + pt, v, FALSE))
               /\ pt' = pt + 1
               /\ UNCHANGED <<c, pl, ph, fr, pp, pos, fend, base, cp, fi, prev, win, sec, loose, res>>

RunHead ==
  /\ ph = "run" /\ sec.run = 0
  /\ LET sz == P.sz[Col] IN
     IF sec.left = 0 THEN
       IF pt = cp THEN ColDone /\ UNCHANGED <<c, pl, fr, pp, pos, fend, base, cp, pt, prev, win, loose, bad, res>>
       ELSE Stop("reject:runs do not fill")
     ELSE \E d \in {IF sec.mode = 2
                   THEN IF fend - pos < sz THEN [st |-> "cut", len |-> 0, v |-> Zero, min |-> TRUE, any |-> FALSE]
                        ELSE [st |-> "ok", len |-> sz, v |-> Word(Src, pos, sz), min |-> TRUE, any |-> FALSE]
                   ELSE LET r == ReadVar(Src, pos, fend) IN
                        [st |-> r.st, len |-> r.len, min |-> r.min, any |-> r.st = "ok" /\ r.v = Zero /\ r.len > 1,
                         v |-> IF r.st = "ok" THEN (IF r.v = Zero THEN MinInt ELSE Unzig(r.v)) ELSE Zero]} :
             IF d.st # "ok" THEN Stop("reject:cut run")
             ELSE IF d.any THEN Stop("any")
             ELSE \E u \in {ReadVar(Src, pos + d.len, fend)} :
                  LET ln == IF u.v[3] # 0 \/ u.v[4] # 0 \/ u.v[2] >= 16384 THEN 1073741824 ELSE u.v[1] + W * u.v[2]
                  IN IF u.st # "ok" THEN Stop("reject:run length")
                     ELSE IF ln > cp - pt THEN Stop("reject:run too long")
                     ELSE /\ pos' = pos + d.len + u.len
                          /\ loose' = loose \cup (IF d.min /\ u.min THEN {} ELSE {"long varint"}) \cup (IF ln = 0 THEN {"empty run"} ELSE {})
                          /\ IF sec.mode = 2
                             THEN /\ sec' = [sec EXCEPT !.left = @ - 1]
                                  /\ pt' = pt + ln
                                  /\ bad' = IF bad # {} THEN bad ELSE UNION {Wrong(Col, base + p, d.v, FALSE) : p \in pt .. pt + ln - 1}
                             ELSE /\ sec' = [sec EXCEPT !.left = @ - 1, !.run = ln, !.cnt = d.v]
                                  /\ UNCHANGED <<pt, bad>>
                          /\ UNCHANGED <<c, pl, ph, fr, pp, fend, base, cp, fi, prev, win, res>>

RunValue ==  \* delta-run: one value (or the whole run when the values do not change)
  /\ ph = "run" /\ sec.run > 0
  /\ IF sec.cnt = Zero
     THEN /\ bad' = IF bad # {} THEN bad ELSE UNION {Wrong(Col, base + p, sec.val, FALSE) : p \in pt .. pt + sec.run - 1}
          /\ sec' = [sec EXCEPT !.run = 0] /\ pt' = pt + sec.run /\ UNCHANGED loose
     ELSE \E v \in {Add(sec.val, sec.cnt)} :
          /\ Note(Wrong(Col, base + pt, v, FALSE))
          /\ sec' = [sec EXCEPT !.val = v, !.run = @ - 1]
          /\ pt' = pt + 1
          /\ loose' = IF InRange(Col, v) THEN loose ELSE loose \cup {"range"}
  /\ UNCHANGED <<c, pl, ph, fr, pp, pos, fend, base, cp, fi, prev, win, res>>

SectionsDone ==
  /\ ph = "sec" /\ fi > Len(P.cols)
  /\ IF pos = fend THEN ChunkDone /\ UNCHANGED loose ELSE Stop("reject:trailing")

(* --------------------- what the decoder may write ---------------------- *)
Declared(b) == \E i \in 1..Len(K.fields) : ~K.fields[i].skip /\ b >= K.fields[i].off /\ b < K.fields[i].off + P.sz[i]
Store ==  \* one point of the output buffer per step; beyond the last point: everything
  /\ ph = "store"
  /\ IF pt < K.n
     THEN /\ bad' = bad \cup {<<"stored", 0, pt>> : b \in {b \in 0..K.step - 1 : ~Declared(b) /\ K.outb[pt * K.step + b + 1] # K.fill}}
          /\ pt' = pt + 1 /\ UNCHANGED ph
     ELSE /\ bad' = bad \cup {<<"stored", 0, pt>> : b \in {b \in K.n * K.step + 1 .. Len(K.outb) : K.outb[b] # K.fill}}
          /\ ph' = "done" /\ UNCHANGED pt
  /\ UNCHANGED <<c, pl, fr, pp, pos, fend, base, cp, fi, prev, win, sec, loose, res>>

(* ------------------------------ judgement ------------------------------ *)
Kinds == {b[1] : b \in bad}
Rejected == res \notin {"", "accept", "any", "glue"}
\* the encoder's output is legal for its version and denotes what was encoded
EncoderLegal == K.mode = "enc" => res = "accept" /\ loose = {}
EncoderExact == K.mode = "enc" => "in-exact" \notin Kinds
EncoderQuant == K.mode = "enc" => "in-quant" \notin Kinds
\* the decoder accepts every legal stream, and rejects every stream without a meaning
DecoderAccepts == res = "accept" /\ loose = {} => K.real = "ok"
DecoderRejects == Rejected => K.real = "throw"
DecoderExact == res = "accept" => "got-exact" \notin Kinds
DecoderQuant == res = "accept" => "got-quant" \notin Kinds
StoresDeclared == "stored" \notin Kinds
Why == IF res = "glue" THEN "glue"
       ELSE IF ~EncoderLegal THEN "EncoderLegal" ELSE IF ~EncoderExact THEN "EncoderExact" ELSE IF ~EncoderQuant THEN "EncoderQuant"
       ELSE IF ~DecoderAccepts THEN "DecoderAccepts" ELSE IF ~DecoderRejects THEN "DecoderRejects"
       ELSE IF ~DecoderExact THEN "DecoderExact" ELSE IF ~DecoderQuant THEN "DecoderQuant"
       ELSE IF ~StoresDeclared THEN "StoresDeclared" ELSE "ok"
Somewhere == IF bad = {} THEN <<"", 0, 0>> ELSE CHOOSE b \in bad : TRUE
Report ==
  /\ ph = "done"
  /\ PrintT(<<"D", c, Why, res, IF loose = {} THEN "" ELSE CHOOSE x \in loose : TRUE, fr, Somewhere[1], Somewhere[2], Somewhere[3], pos>>)
  /\ ph' = "end"
  /\ UNCHANGED <<c, pl, fr, pp, pos, fend, base, cp, pt, fi, prev, win, sec, loose, bad, res>>

Next == Plan \/ Begin \/ Frame \/ Value \/ NoFields \/ RegularDone \/ Section \/ DeltaValue \/ PaletteValue \/ RunHead \/ RunValue
        \/ SectionsDone \/ Store \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
