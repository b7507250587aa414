------------------------------- MODULE Bits64 -------------------------------
(***************************************************************************)
(* 64-bit two's complement words as four 16-bit limbs, least significant   *)
(* first (TLC's integers have 32 bits), and the number codings of the      *)
(* Cloudini wire format: LEB128 varints, zig-zag, LSB-first bit packing.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

(* TLC evaluates operator arguments and LET definitions anew at every use inside an action;  *)
(* With evaluates v once.                                                                   *)
With(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE

W == 65536
Zero == <<0, 0, 0, 0>>
One == <<1, 0, 0, 0>>
MinInt == <<0, 0, 0, 32768>>
MaxInt == <<65535, 65535, 65535, 32767>>

Add(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div W)
      s3 == a[3] + b[3] + (s2 \div W)
      s4 == a[4] + b[4] + (s3 \div W)
  IN <<s1 % W, s2 % W, s3 % W, s4 % W>>
Inv64(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Neg(a) == With(Inv64(a), LAMBDA m : Add(m, One))
Sub(a, b) == With(Neg(b), LAMBDA m : Add(a, m))
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Shr1(a) == <<(a[1] \div 2) + (a[2] % 2) * 32768, (a[2] \div 2) + (a[3] % 2) * 32768,
             (a[3] \div 2) + (a[4] % 2) * 32768, a[4] \div 2>>
IsNeg(a) == a[4] >= 32768
Pow2 == [k \in 0..30 |-> 2^k]
\* shift left by k in 0..64
Shl(a, k) ==
  LET q == k \div 16
      r == k % 16
      L(i) == IF i < 1 THEN 0 ELSE a[i]
      P(i) == ((L(i - q) * Pow2[r]) % W) + (L(i - q - 1) \div Pow2[16 - r])
  IN IF k >= 64 THEN Zero ELSE <<P(1), P(2), P(3), P(4)>>
\* a <= b, unsigned / signed
ULe(a, b) == \/ a[4] < b[4]
             \/ a[4] = b[4] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <= b[1]))))
Flip(a) == <<a[1], a[2], a[3], (a[4] + 32768) % W>>
SLe(a, b) == IF IsNeg(a) = IsNeg(b) THEN ULe(a, b) ELSE IsNeg(a)
\* low 32 bits, sign extended
Sext32(a) == LET s == IF a[2] >= 32768 THEN 65535 ELSE 0 IN <<a[1], a[2], s, s>>
\* the first `size` bytes of a word, as the limbs a field of that size is compared by
Trunc(a, size) == CASE size = 1 -> <<a[1] % 256>>
                    [] size = 2 -> <<a[1]>>
                    [] size = 4 -> <<a[1], a[2]>>
                    [] OTHER -> a
\* sign extension of a field's limbs
Ext(l, size, signed) ==
  LET neg == signed /\ (CASE size = 1 -> l[1] >= 128 [] OTHER -> l[Len(l)] >= 32768)
      f == IF neg THEN 65535 ELSE 0
  IN CASE size = 1 -> <<IF neg THEN l[1] + 65280 ELSE l[1], f, f, f>>
       [] size = 2 -> <<l[1], f, f, f>>
       [] size = 4 -> <<l[1], l[2], f, f>>
       [] OTHER -> l

(* ------------------------------ varints -------------------------------- *)
Mul128(a, d) == LET s1 == a[1] * 128 + d
                    s2 == a[2] * 128 + (s1 \div W)
                    s3 == a[3] * 128 + (s2 \div W)
                    s4 == a[4] * 128 + (s3 \div W)
                IN <<s1 % W, s2 % W, s3 % W, s4 % W>>
\* value of the varint whose bytes are q, least significant group first
Horner(q) == FoldRight(LAMBDA d, acc : Mul128(acc, d % 128), q, Zero)

RECURSIVE VarLen(_, _, _, _)
\* number of bytes of the varint at s[p+1..end]; 0 when cut, 11 when longer than ten bytes
VarLen(s, p, end, k) == IF k > 10 THEN 11
                        ELSE IF p + k > end THEN 0
                        ELSE IF s[p + k] < 128 THEN k
                        ELSE VarLen(s, p, end, k + 1)

(* [st, len, v]: st in "ok", "cut", "big"; min: minimal form *)
ReadVarN(s, p, n) ==
  IF n = 0 THEN [st |-> "cut", len |-> 0, v |-> Zero, min |-> TRUE]
  ELSE IF n = 11 THEN [st |-> "big", len |-> 0, v |-> Zero, min |-> TRUE]
  ELSE IF n = 1 THEN [st |-> "ok", len |-> 1, v |-> <<s[p + 1], 0, 0, 0>>, min |-> TRUE]
  ELSE IF n = 2 THEN [st |-> "ok", len |-> 2, v |-> <<(s[p + 1] % 128) + s[p + 2] * 128, 0, 0, 0>>, min |-> s[p + 2] # 0]
  ELSE IF n = 10 /\ s[p + 10] > 1 THEN [st |-> "big", len |-> 0, v |-> Zero, min |-> TRUE]
  ELSE [st |-> "ok", len |-> n, v |-> Horner(SubSeq(s, p + 1, p + n)), min |-> s[p + n] # 0]
ReadVar(s, p, end) == With(VarLen(s, p, end, 1), LAMBDA n : ReadVarN(s, p, n))

\* signed numbers are stored as zigzag + 1 (0 is reserved)
Dec64(a) == IF a[1] > 0 THEN <<a[1] - 1, a[2], a[3], a[4]>> ELSE IF a[2] > 0 THEN <<65535, a[2] - 1, a[3], a[4]>>
            ELSE IF a[3] > 0 THEN <<65535, 65535, a[3] - 1, a[4]>> ELSE <<65535, 65535, 65535, (a[4] + 65535) % W>>
Unzig(u) == With(Dec64(u), LAMBDA m : IF m[1] % 2 = 1 THEN With(Shr1(m), LAMBDA h : Inv64(h)) ELSE Shr1(m))
Dbl(a) == Add(a, a)
Zig(v) == IF IsNeg(v) THEN With(Inv64(v), LAMBDA n : With(Dbl(n), LAMBDA d : Add(d, <<2, 0, 0, 0>>))) ELSE With(Dbl(v), LAMBDA d : Add(d, One))
\* number of bytes of a varint of u
USize(u) == IF u[4] # 0 THEN (IF u[4] >= 32768 THEN 10 ELSE IF u[4] >= 256 THEN 9 ELSE IF u[4] >= 2 THEN 8 ELSE 7)
            ELSE IF u[3] # 0 THEN (IF u[3] >= 1024 THEN 7 ELSE IF u[3] >= 8 THEN 6 ELSE 5)
            ELSE IF u[2] # 0 THEN (IF u[2] >= 4096 THEN 5 ELSE IF u[2] >= 32 THEN 4 ELSE 3)
            ELSE IF u[1] >= 16384 THEN 3 ELSE IF u[1] >= 128 THEN 2 ELSE 1
SSize(v) == With(Zig(v), LAMBDA u : USize(u))
\* bytes of an unsigned varint of a TLC integer (run lengths)
NSize(n) == IF n >= 268435456 THEN 5 ELSE IF n >= 2097152 THEN 4 ELSE IF n >= 16384 THEN 3 ELSE IF n >= 128 THEN 2 ELSE 1

(* ------------------------------ bit strings ---------------------------- *)
\* byte k (from 0) of the bit string that starts b bits into s at p
BitByte(s, p, end, b, k) ==
  LET i == p + (b \div 8) + k + 1
      r == b % 8
      lo == IF i <= end THEN s[i] ELSE 0
      hi == IF i + 1 <= end THEN s[i + 1] ELSE 0
  IN IF r = 0 THEN lo ELSE ((lo \div Pow2[r]) + (hi * Pow2[8 - r])) % 256
\* n bits (1..64), LSB first, as a word
Bits(s, p, end, b, n) ==
  LET K(k) == IF 8 * k >= n THEN 0
              ELSE IF 8 * k + 8 <= n THEN BitByte(s, p, end, b, k)
              ELSE BitByte(s, p, end, b, k) % Pow2[n - 8 * k]
  IN <<K(0) + 256 * K(1), K(2) + 256 * K(3), K(4) + 256 * K(5), K(6) + 256 * K(7)>>
Word(s, p, size) == \* raw little-endian value of `size` bytes at s[p+1..]
  CASE size = 1 -> <<s[p + 1], 0, 0, 0>>
    [] size = 2 -> <<s[p + 1] + 256 * s[p + 2], 0, 0, 0>>
    [] size = 4 -> <<s[p + 1] + 256 * s[p + 2], s[p + 3] + 256 * s[p + 4], 0, 0>>
    [] OTHER -> <<s[p + 1] + 256 * s[p + 2], s[p + 3] + 256 * s[p + 4], s[p + 5] + 256 * s[p + 6], s[p + 7] + 256 * s[p + 8]>>
IndexBits(count) == IF count <= 1 THEN 0 ELSE CHOOSE b \in 1..16 : Pow2[b] >= count /\ Pow2[b - 1] < count
=============================================================================
