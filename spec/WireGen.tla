------------------------------ MODULE WireGen -------------------------------
(***************************************************************************)
(* Generator of legal Cloudini chunks, run by TLC -simulate: a behaviour   *)
(* chooses a description and then writes a cloud value by value, in any    *)
(* coding the wire format allows (not only the ones the present encoder    *)
(* would choose).  Every finished behaviour is printed as one JSON line    *)
(* with the chunks' serialized bytes and the cells they denote; the        *)
(* harness frames (and compresses) them and replays them into the real     *)
(* decoder.                                                                *)
(***************************************************************************)
EXTENDS Bits64, TLC, Json, IOUtils

MaxFields == 5
ChunkPoints == 32768
Big == IOEnv.BIG = "1"     \* clouds of several chunks, made of run-coded columns only
R(s) == RandomElement(s)

Size(t) == CASE t \in {1, 2} -> 1 [] t \in {3, 4} -> 2 [] t \in {5, 6, 7} -> 4 [] OTHER -> 8
Signed(t) == t \in {1, 3, 5, 9}
IntCol(t) == t \in {3, 4, 5, 6, 9, 10}

(* --------------------------- number writing ---------------------------- *)
Shr7(a) == <<(a[1] \div 128) + (a[2] % 128) * 512, (a[2] \div 128) + (a[3] % 128) * 512, (a[3] \div 128) + (a[4] % 128) * 512, a[4] \div 128>>
RECURSIVE VarBytes(_)
VarBytes(u) == IF u[2] = 0 /\ u[3] = 0 /\ u[4] = 0 /\ u[1] < 128 THEN <<u[1]>>
               ELSE <<(u[1] % 128) + 128>> \o With(Shr7(u), LAMBDA r : VarBytes(r))
SVar(v) == With(Zig(v), LAMBDA u : VarBytes(u))
NVar(n) == VarBytes(<<n % W, n \div W, 0, 0>>)
RawBytes(v, size) == SubSeq(<<v[1] % 256, v[1] \div 256, v[2] % 256, v[2] \div 256, v[3] % 256, v[3] \div 256, v[4] % 256, v[4] \div 256>>, 1, size)
U16(n) == <<n % 256, n \div 256>>
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
BitsOf(v, n) == [i \in 1..n |-> (v[((i - 1) \div 16) + 1] \div Pow2[(i - 1) % 16]) % 2]
Pack(bits) == [k \in 1..((Len(bits) + 7) \div 8) |->
                 LET B(j) == IF 8 * (k - 1) + j <= Len(bits) THEN bits[8 * (k - 1) + j] * Pow2[j - 1] ELSE 0
                 IN B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7) + B(8)]

(* ---------------------------- value choice ----------------------------- *)
(* TLC caches definitions without parameters, hence the dummy parameters of the random ones *)
RLimb(z) == R({0, 1, 2, 63, 64, 65, 127, 128, 255, 256, 8191, 8192, 32767, 32768, 65534, 65535, 4095, 1024})
RWord(z) == With(R(1..6), LAMBDA k :
         CASE k = 1 -> Zero [] k = 2 -> <<RLimb(0), 0, 0, 0>> [] k = 3 -> <<RLimb(0), RLimb(0), 0, 0>>
           [] k = 4 -> <<RLimb(0), RLimb(0), RLimb(0), RLimb(0)>> [] k = 5 -> MinInt [] OTHER -> <<R(0..65535), R(0..65535), R(0..65535), R(0..65535)>>)
\* a value of the field's own type, as a 64-bit integer
InType(w, t) == Ext(Trunc(w, Size(t)), Size(t), Signed(t))
RVal(t, p) == With(R(1..5), LAMBDA k :
  CASE k = 1 -> p
    [] k = 2 -> With(Add(p, <<R({1, 2, 63, 64, 65, 200, 8192}), 0, 0, 0>>), LAMBDA w : InType(w, t))
    [] k = 3 -> With(Sub(p, <<R({1, 2, 63, 64, 65, 200, 8192}), 0, 0, 0>>), LAMBDA w : InType(w, t))
    [] OTHER -> With(RWord(0), LAMBDA w : InType(w, t)))

(* -------------------------------- state -------------------------------- *)
VARIABLES ph, d, pt, fi, prev, win, out, cells, chunks, base, cp, pal
vars == <<ph, d, pt, fi, prev, win, out, cells, chunks, base, cp, pal>>

RFieldBig(z) == [t |-> R({3, 4, 5, 6, 9, 10}), res |-> FALSE, skip |-> R(1..6) = 1]
RField(z) == [t |-> R({1, 2, 3, 4, 5, 6, 7, 8, 9, 10}), res |-> R(BOOLEAN), skip |-> R(1..8) = 1]
RXyz(z) == [t |-> 7, res |-> TRUE, skip |-> R(1..10) = 1]
Fix(f) == [f EXCEPT !.res = f.res /\ f.t \in {7, 8}]
RDesc2(lead, nf) ==
  [ver |-> IF Big THEN 5 ELSE R({2, 3, 4, 5, 5, 5, 5}), enc |-> IF Big THEN 1 ELSE R({0, 1, 1, 1, 1, 2}),
   fields |-> [i \in 1..lead + nf |-> IF Big THEN RFieldBig(0) ELSE IF i <= lead THEN RXyz(0) ELSE With(RField(0), LAMBDA f : Fix(f))],
   n |-> IF Big THEN R({1, 32767, 32768, 32769, 65535, 65536, 65537, 40000, 100000}) ELSE R(0..9)]
RDesc(z) == With(IF Big THEN 0 ELSE R({0, 0, 1, 2, 3, 3, 4, 4, 5}), LAMBDA lead :
           With(IF Big THEN R(1..2) ELSE R((IF lead = 0 THEN 1 ELSE 0)..MaxFields), LAMBDA nf : RDesc2(lead, nf)))

RECURSIVE LeadFrom(_, _)
LeadFrom(fs, i) == IF i > Len(fs) THEN i - 1 ELSE IF fs[i].t = 7 /\ fs[i].res THEN LeadFrom(fs, i + 1) ELSE i - 1
Lead(k) == LET m == IF k.enc = 1 THEN LeadFrom(k.fields, 1) ELSE 0 IN IF m \in {3, 4} THEN m ELSE 0
V5(k) == k.ver >= 5 /\ k.enc = 1 /\ \E i \in Lead(k) + 1 .. Len(k.fields) : IntCol(k.fields[i].t)
IsCol(k, i) == V5(k) /\ i > Lead(k) /\ IntCol(k.fields[i].t)
Regular(k) == SelectSeq([i \in 1..Len(k.fields) |-> i], LAMBDA i : ~IsCol(k, i))
Columns(k) == SelectSeq([i \in 1..Len(k.fields) |-> i], LAMBDA i : IsCol(k, i))
Coding(k, i) ==
  LET f == k.fields[i] IN
  CASE k.enc = 0 -> "raw" [] f.t \in {1, 2} -> "raw" [] IntCol(f.t) -> "int"
    [] f.t = 7 -> IF k.enc = 1 /\ f.res THEN (IF i <= Lead(k) THEN "q32" ELSE "q") ELSE IF k.enc = 2 THEN "xor" ELSE "raw"
    [] OTHER -> IF k.enc = 1 /\ f.res THEN "q" ELSE IF ~f.res /\ k.ver >= 4 THEN "gor" ELSE "xor"

Init == /\ ph = "desc" /\ d = <<>> /\ pt = 0 /\ fi = 1 /\ prev = <<>> /\ win = <<>> /\ out = <<>> /\ cells = <<>> /\ chunks = <<>>
        /\ base = 0 /\ cp = 0 /\ pal = <<>>
Choose ==
  /\ ph = "desc"
  /\ \E k \in {RDesc(0)} : \E fs \in {TLCEval(k.fields)} : \E e \in {[k EXCEPT !.fields = fs]} :
       /\ d' = [ver |-> e.ver, enc |-> e.enc, n |-> e.n, fields |-> fs, reg |-> TLCEval(Regular(e)), cols |-> TLCEval(Columns(e)),
                cod |-> TLCEval([i \in 1..Len(fs) |-> Coding(e, i)])]
       /\ cells' = TLCEval([i \in 1..Len(fs) |-> <<>>])
  /\ ph' = "chunk"
  /\ UNCHANGED <<pt, fi, prev, win, out, chunks, base, cp, pal>>
Chunk ==
  /\ ph = "chunk"
  /\ IF base = d.n THEN ph' = "end" /\ UNCHANGED <<cp, prev, win, out, pt, fi>>
     ELSE /\ cp' = IF d.ver < 3 THEN d.n ELSE IF d.n - base > ChunkPoints THEN ChunkPoints ELSE d.n - base
          /\ ph' = "pts" /\ out' = <<>> /\ pt' = 0 /\ fi' = 1
          /\ prev' = TLCEval([i \in 1..Len(d.fields) |-> Zero]) /\ win' = TLCEval([i \in 1..Len(d.fields) |-> <<>>])
  /\ UNCHANGED <<d, cells, chunks, base, pal>>

Put(i, bytes, pv, cell) ==
  /\ out' = out \o bytes
  /\ prev' = [prev EXCEPT ![i] = pv]
  /\ cells' = [cells EXCEPT ![i] = Append(@, cell)]
Adv == IF fi = Len(d.reg) THEN fi' = 1 /\ pt' = pt + 1 ELSE fi' = fi + 1 /\ pt' = pt
Rest == Adv /\ UNCHANGED <<ph, d, chunks, base, cp, pal>>

GorBits(i, x, m, tr, new) ==  \* the bits of a non-zero xor in a window of m meaningful bits above tr
  With([k \in 1..m |-> LET j == k + tr IN (x[((j - 1) \div 16) + 1] \div Pow2[(j - 1) % 16]) % 2], LAMBDA mb :
    Pack((IF new THEN <<1, 1>> \o BitsOf(<<64 - tr - m, 0, 0, 0>>, 5) \o BitsOf(<<m - 1, 0, 0, 0>>, 6) ELSE <<1, 0>>) \o mb))
TopBit(x) == IF x = Zero THEN 0 ELSE CHOOSE b \in 1..64 : BitsOf(x, 64)[b] = 1 /\ \A j \in b + 1..64 : BitsOf(x, 64)[j] = 0
LowBit(x) == IF x = Zero THEN 0 ELSE CHOOSE b \in 1..64 : BitsOf(x, 64)[b] = 1 /\ \A j \in 1..b - 1 : BitsOf(x, 64)[j] = 0
RXor(z) == With(R(1..4), LAMBDA k : CASE k = 1 -> RWord(0) [] k = 2 -> With(R(0..48), LAMBDA q : Shl(<<R(1..65535), 0, 0, 0>>, q)) [] k = 3 -> With(R(0..63), LAMBDA q : Shl(One, q)) [] OTHER -> With(<<R(1..65535), R(0..65535), 0, 0>>, LAMBDA w : With(R(0..32), LAMBDA q : Shl(w, q))))

Value ==
  /\ ph = "pts" /\ pt < cp /\ Len(d.reg) > 0
  /\ \E i \in {d.reg[fi]} : LET f == d.fields[i]
                                sz == Size(f.t) IN
     CASE d.cod[i] = "raw" -> \E w \in {RWord(0)} : Put(i, RawBytes(w, sz), w, Trunc(w, sz)) /\ Rest /\ UNCHANGED win
       [] d.cod[i] = "xor" -> \E x \in {RWord(0)} : \E w \in {Xor64(x, prev[i])} :
            \E w2 \in {IF sz = 4 THEN <<w[1], w[2], 0, 0>> ELSE w} :
            Put(i, RawBytes(x, sz), w2, Trunc(w2, sz)) /\ Rest /\ UNCHANGED win
       [] d.cod[i] = "int" -> \E v \in {RVal(f.t, prev[i])} : \E df \in {Sub(v, prev[i])} :
            Put(i, SVar(df), v, Trunc(v, sz)) /\ Rest /\ UNCHANGED win
       [] d.cod[i] \in {"q", "q32"} ->
            IF R(1..6) = 1 THEN Put(i, <<0>>, Zero, <<>>) /\ Rest /\ UNCHANGED win
            ELSE \E w \in {LET k == R(1..4) IN CASE k = 1 -> prev[i] [] k = 2 -> Add(prev[i], <<R({1, 63, 64, 5000}), 0, 0, 0>>)
                              [] k = 3 -> Sub(prev[i], <<R({1, 63, 64, 65, 5000}), 0, 0, 0>>) [] OTHER -> <<RLimb(0), RLimb(0) % 32, 0, 0>>} :
                 \E v \in {IF d.cod[i] = "q32" \/ f.t = 7 THEN Sext32(w) ELSE w} : \E df \in {Sub(v, prev[i])} :
                 Put(i, SVar(df), v, <<v, v>>) /\ Rest /\ UNCHANGED win
       [] OTHER ->  \* gor
            IF pt = 0 THEN \E w \in {RWord(0)} : Put(i, RawBytes(w, 8), w, w) /\ Rest /\ UNCHANGED win
            ELSE IF R(1..4) = 1 THEN Put(i, <<0>>, prev[i], prev[i]) /\ Rest /\ UNCHANGED win
            ELSE \E x \in {RXor(0)} : \E hi \in {TopBit(x)} : \E lo \in {LowBit(x)} : \E v \in {Xor64(x, prev[i])} :
                 IF win[i] # <<>> /\ (x = Zero \/ (64 - hi >= win[i][1] /\ lo - 1 >= win[i][2])) /\ R(1..5) # 1
                 THEN Put(i, GorBits(i, x, 64 - win[i][1] - win[i][2], win[i][2], FALSE), v, v) /\ Rest /\ UNCHANGED win
                 ELSE \* a new window, possibly wider than needed
                   \E ld \in {LET z == IF x = Zero THEN 31 ELSE 64 - hi IN R({0, z, z, IF z > 0 THEN z - 1 ELSE 0})} :
                   \E lead \in {IF ld > 31 THEN 31 ELSE ld} :
                   \E tr \in {LET z == IF x = Zero THEN 0 ELSE lo - 1 IN R({0, z, z})} :
                     /\ Put(i, GorBits(i, x, 64 - lead - tr, tr, TRUE), v, v)
                     /\ win' = [win EXCEPT ![i] = <<lead, tr>>]
                     /\ Rest

PtsDone ==
  /\ ph = "pts" /\ (pt = cp \/ Len(d.reg) = 0)
  /\ ph' = "col" /\ fi' = 1
  /\ UNCHANGED <<d, pt, prev, win, out, cells, chunks, base, cp, pal>>

Col == d.cols[fi]
ColSize == Size(d.fields[Col].t)
Start ==
  /\ ph = "col" /\ fi <= Len(d.cols)
  /\ \E mode \in {IF Big THEN R({2, 2, 3, 1}) ELSE R(0..3)} :
     CASE mode = 0 -> /\ ph' = "c0" /\ out' = out \o <<0>> /\ pt' = 0 /\ prev' = [prev EXCEPT ![Col] = Zero] /\ UNCHANGED pal
       [] mode = 1 -> /\ \E cnt \in {IF Big THEN 1 ELSE R({1, 2, 3, 4, 5, 8, 9, 17})} :
                         \E p \in {TLCEval([j \in 1..cnt |-> LET w == RWord(0) IN InType(IF R(1..5) = 1 THEN Zero ELSE w, d.fields[Col].t)])} :
                           /\ pal' = p
                           /\ out' = out \o <<1>> \o U16(cnt) \o FoldLeft(LAMBDA acc, w : acc \o RawBytes(w, ColSize), <<>>, p)
                      /\ ph' = "c1" /\ pt' = 0 /\ UNCHANGED prev
       [] OTHER -> /\ ph' = IF mode = 2 THEN "c2" ELSE "c3"
                   /\ pt' = 0 /\ prev' = [prev EXCEPT ![Col] = Zero] /\ pal' = <<>>
                   /\ UNCHANGED out
  /\ UNCHANGED <<d, fi, win, cells, chunks, base, cp>>
ColDone == ph' = "col" /\ fi' = fi + 1
C0 == /\ ph = "c0"
      /\ IF pt = cp THEN ColDone /\ UNCHANGED <<pt, prev, out, cells>>
         ELSE \E v \in {RVal(d.fields[Col].t, prev[Col])} : \E df \in {Sub(v, prev[Col])} :
                /\ Put(Col, SVar(df), v, Trunc(v, ColSize)) /\ pt' = pt + 1 /\ UNCHANGED <<ph, fi>>
      /\ UNCHANGED <<d, win, chunks, base, cp, pal>>
\* all indexes at once
C1 == /\ ph = "c1"
      /\ \E ix \in {TLCEval([j \in 1..cp |-> R(1..Len(pal))])} : \E b \in {IndexBits(Len(pal))} :
           /\ out' = out \o (IF b = 0 THEN <<>> ELSE Pack(FoldLeft(LAMBDA acc, j : acc \o BitsOf(<<j - 1, 0, 0, 0>>, b), <<>>, ix)))
           /\ cells' = [cells EXCEPT ![Col] = IF Big THEN Append(@, <<cp, Trunc(pal[1], ColSize)>>) ELSE @ \o [j \in 1..cp |-> Trunc(pal[ix[j]], ColSize)]]
      /\ ColDone
      /\ UNCHANGED <<d, pt, prev, win, chunks, base, cp, pal>>
\* runs: pal collects the run heads, so that the count can be written in front
RunLen(z) == IF Big THEN R({1, 127, 128, 129, 1000, 16383, 16384, 16385, 32768}) ELSE R(1..5)
C23 == /\ ph \in {"c2", "c3"}
       /\ IF pt = cp
          THEN /\ out' = out \o <<IF ph = "c2" THEN 2 ELSE 3>> \o U32(Len(pal)) \o FoldLeft(LAMBDA acc, x : acc \o x, <<>>, pal)
               /\ ColDone /\ UNCHANGED <<pt, prev, cells, pal>>
          ELSE \E l0 \in {RunLen(0)} : \E ln \in {IF l0 > cp - pt THEN cp - pt ELSE l0} : \E v \in {RVal(d.fields[Col].t, prev[Col])} :
               IF ph = "c2"
               THEN /\ pal' = Append(pal, RawBytes(v, ColSize) \o NVar(ln))
                    /\ prev' = [prev EXCEPT ![Col] = v]
                    /\ cells' = [cells EXCEPT ![Col] = IF Big THEN Append(@, <<ln, Trunc(v, ColSize)>>) ELSE @ \o [j \in 1..ln |-> Trunc(v, ColSize)]]
                    /\ pt' = pt + ln /\ UNCHANGED <<ph, fi, out>>
               ELSE \* delta run: stay with single steps or zero differences so that values stay in the type
                    \E ln3 \in {IF v = prev[Col] THEN ln ELSE 1} : \E df \in {Sub(v, prev[Col])} :
                    /\ pal' = Append(pal, SVar(df) \o NVar(ln3))
                    /\ prev' = [prev EXCEPT ![Col] = v]
                    /\ cells' = [cells EXCEPT ![Col] = IF Big THEN Append(@, <<ln3, Trunc(v, ColSize)>>) ELSE @ \o [j \in 1..ln3 |-> Trunc(v, ColSize)]]
                    /\ pt' = pt + ln3 /\ UNCHANGED <<ph, fi, out>>
       /\ UNCHANGED <<d, win, chunks, base, cp>>
ColsDone ==
  /\ ph = "col" /\ fi > Len(d.cols)
  /\ chunks' = Append(chunks, out) /\ base' = base + cp /\ ph' = "chunk"
  /\ UNCHANGED <<d, pt, fi, prev, win, out, cells, cp, pal>>
Emit ==
  /\ ph = "end"
  /\ PrintT("GEN " \o ToJson([ver |-> d.ver, enc |-> d.enc, n |-> d.n, fields |-> d.fields, chunks |-> chunks, cells |-> cells]))
  /\ ph' = "over"
  /\ UNCHANGED <<d, pt, fi, prev, win, out, cells, chunks, base, cp, pal>>
Next == Choose \/ Chunk \/ Value \/ PtsDone \/ Start \/ C0 \/ C1 \/ C23 \/ ColsDone \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
