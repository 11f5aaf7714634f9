-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The two wire encodings of a replay: what bytes mean, and how values are  *)
(* written.                                                                *)
(*                                                                         *)
(* Values are tagged sequences, so that any two of them can be compared:    *)
(*   number  <<0, s, l0, l1, ...>>   s = 1 when negative, magnitude in       *)
(*                                   limbs of base 2^16, least first, no     *)
(*                                   leading zeros (0 is <<0, 0>>)           *)
(*   text    <<1, byte, ...>>        blobs, texts, arrays of bytes           *)
(*   truth   <<2, 0 or 1>>                                                  *)
(*   nothing <<3>>                   absent option, unit                     *)
(*   list    <<4, v, ...>>                                                  *)
(*   record  <<5, [name |-> v]>>                                            *)
(*   variant <<8, name, v>>                                                 *)
(*                                                                         *)
(* The byte-aligned encoding marks every value with its type; positions are *)
(* counts of bytes.  The bit-packed encoding has no marks; positions are    *)
(* counts of bits, bit i of byte b being position 8*b + i, counted from the *)
(* least significant bit.                                                  *)
(***************************************************************************)
EXTENDS Prelude, Proto
SX == INSTANCE SequencesExt

(*------------------------------- numbers --------------------------------*)
(* Magnitudes are sequences of limbs; those without leading zeros are       *)
(* unique.                                                                 *)
B16 == 65536
Pow2 == [i \in 0..30 |-> 2^i]

RECURSIVE MagTrim(_)
MagTrim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN MagTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m
MagOf(n) == IF n = 0 THEN <<>> ELSE IF n < B16 THEN <<n>> ELSE <<n % B16, n \div B16>>
Limb(m, i) == IF i \in DOMAIN m THEN m[i] ELSE 0

(* m * 2^c + k, with c <= 8 and k < 2^c *)
RECURSIVE MagShl(_, _, _, _)
MagShl(m, c, k, i) == IF i > Len(m) THEN (IF k = 0 THEN <<>> ELSE <<k>>)
                      ELSE LET t == m[i] * Pow2[c] + k
                           IN <<t % B16>> \o MagShl(m, c, t \div B16, i + 1)
(* the bits s .. s+c-1 of m, c <= 8 *)
MagBits(m, s, c) == LET i == (s \div 16) + 1 r == s % 16
                    IN ((Limb(m, i) \div Pow2[r]) + (Limb(m, i + 1) % 256) * Pow2[16 - r]) % Pow2[c]

RECURSIVE MagAddC(_, _, _, _)
MagAddC(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET t == Limb(a, i) + Limb(b, i) + c
                            IN <<t % B16>> \o MagAddC(a, b, i + 1, t \div B16)
MagAdd(a, b) == MagAddC(a, b, 1, 0)
RECURSIVE MagSubC(_, _, _, _)
MagSubC(a, b, i, c) == IF i > Len(a) THEN <<>>
                       ELSE LET t == Limb(a, i) - Limb(b, i) - c
                            IN <<t % B16>> \o MagSubC(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
MagSub(a, b) == MagTrim(MagSubC(a, b, 1, 0))        \* a >= b
RECURSIVE MagLessAt(_, _, _)
MagLessAt(a, b, i) == IF i = 0 THEN FALSE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE MagLessAt(a, b, i - 1)
MagLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE MagLessAt(a, b, Len(a))

Num(s, m) == LET t == MagTrim(m) IN <<0, IF t = <<>> THEN 0 ELSE s>> \o t
NumOf(n) == IF n < 0 THEN Num(1, MagOf(-n)) ELSE <<0, 0>> \o MagOf(n)
IsNum(v) == v[1] = 0
Neg(v) == v[2] = 1
Mag(v) == SubSeq(v, 3, Len(v))
(* The number as an integer of TLC; too big ones become an integer that no  *)
(* input is long enough for.                                               *)
Big == 1000000000
Small(v) == IF Neg(v) \/ Len(v) > 4 \/ (Len(v) = 4 /\ v[4] >= 15000) THEN Big
            ELSE Limb(v, 3) + B16 * Limb(v, 4)
NumAdd(a, b) == IF a[2] = b[2] THEN Num(a[2], MagAdd(Mag(a), Mag(b)))
                ELSE IF MagLess(Mag(a), Mag(b)) THEN Num(b[2], MagSub(Mag(b), Mag(a)))
                ELSE Num(a[2], MagSub(Mag(a), Mag(b)))
NumLess(a, b) == IF a[2] # b[2] THEN a[2] = 1
                 ELSE IF a[2] = 1 THEN MagLess(Mag(b), Mag(a)) ELSE MagLess(Mag(a), Mag(b))

M63 == <<0, 0, 0, 32768>>
M64 == <<0, 0, 0, 0, 1>>
(* the signed 64-bit number with the same bits as the sum modulo 2^64 *)
Wrap64(v) == LET m == IF Neg(v) THEN (IF MagLess(M64, Mag(v)) THEN MagSub(MagAdd(M64, M64), Mag(v)) ELSE MagSub(M64, Mag(v))) ELSE Mag(v)
                 u == MagTrim(SubSeq(m \o <<0, 0, 0, 0>>, 1, 4))
             IN IF MagLess(u, M63) THEN Num(0, u) ELSE Num(1, MagSub(M64, u))

(* the limits of Rust's integer types *)
Fits(v, r) ==
  IF v[2] = 0 /\ (Len(v) = 2 \/ (Len(v) = 3 /\ r # "u8")) THEN TRUE
  ELSE
  CASE r = "u8"  -> ~Neg(v) /\ (Len(v) <= 2 \/ (Len(v) = 3 /\ v[3] < 256))
    [] r = "u16" -> ~Neg(v) /\ Len(v) <= 3
    [] r = "u32" -> ~Neg(v) /\ Len(v) <= 4
    [] r = "u64" -> ~Neg(v) /\ Len(v) <= 6
    [] r = "i32" -> IF Neg(v) THEN ~MagLess(<<0, 32768>>, Mag(v)) ELSE MagLess(Mag(v), <<0, 32768>>)
    [] r = "i64" -> IF Neg(v) THEN ~MagLess(M63, Mag(v)) ELSE MagLess(Mag(v), M63)

Offsets == [x \in {"0", "1", "-2", "-8", "-128", "-32768", "-2147483648", "-9223372036854775808"} |->
              CASE x = "0" -> NumOf(0) [] x = "-2" -> NumOf(-2) [] x = "-8" -> NumOf(-8) [] x = "1" -> NumOf(1) [] x = "-128" -> NumOf(-128) [] x = "-32768" -> NumOf(-32768)
                [] x = "-2147483648" -> Num(1, <<0, 32768>>) [] x = "-9223372036854775808" -> Num(1, M63)]

(*-------------------------------- results --------------------------------*)
(* "dontcare": the encoding gives this input no meaning that anybody could   *)
(* rely on.                                                                *)
Ok(v, p) == [k |-> "ok", v |-> v, p |-> p]
Err      == [k |-> "err"]
DontCare == [k |-> "dontcare"]
IsOk(r)  == r.k = "ok"

Bytes(bs, p, n) == SubSeq(bs, p + 1, p + n)
Unit == <<3>>
Field(rec, n) == rec[2][n]

(*------------------------- byte-aligned encoding -------------------------*)
(* Variable-length integers: bit 0 of the first byte is the sign, then six  *)
(* bits of magnitude, then seven per further byte; bit 7 says that another  *)
(* byte follows.                                                           *)
RECURSIVE VlqGroups(_, _, _)
VlqGroups(bs, p, n) ==             \* number of bytes of the integer at p, 0 when it does not end
  IF p >= Len(bs) THEN 0
  ELSE IF bs[p + 1] >= 128 THEN (IF n = 10 THEN 0 ELSE VlqGroups(bs, p + 1, n + 1))
  ELSE n
RECURSIVE VlqMag(_, _, _)
VlqMag(bs, p, n) ==                \* magnitude of the n groups at p, the first of six bits
  IF n = 1 THEN MagOf((bs[p + 1] \div 2) % 64)
  ELSE LET RECURSIVE Go(_)
           Go(i) == IF i = n THEN MagOf(bs[p + n] % 128)
                    ELSE IF i = 1 THEN MagShl(Go(2), 6, (bs[p + 1] \div 2) % 64, 1)
                    ELSE MagShl(Go(i + 1), 7, bs[p + i] % 128, 1)
       IN Go(1)
Vlq(bs, p) ==
  IF p < Len(bs) /\ bs[p + 1] < 128           \* the common case of a single byte
  THEN Ok(IF bs[p + 1] < 2 THEN <<0, 0>> ELSE <<0, bs[p + 1] % 2, bs[p + 1] \div 2>>, p + 1)
  ELSE
  LET n == VlqGroups(bs, p, 1)
  IN IF n = 0 THEN Err
     ELSE LET v == IF n <= 4
                   THEN LET m == ((bs[p + 1] \div 2) % 64) + (IF n > 1 THEN 64 * (bs[p + 2] % 128) ELSE 0)
                                 + (IF n > 2 THEN 8192 * (bs[p + 3] % 128) ELSE 0) + (IF n > 3 THEN 1048576 * (bs[p + 4] % 128) ELSE 0)
                        IN IF bs[p + 1] % 2 = 1 THEN NumOf(-m) ELSE NumOf(m)
                   ELSE Num(bs[p + 1] % 2, VlqMag(bs, p, n))
          IN IF Fits(v, "i64") THEN Ok(v, p + n) ELSE DontCare

TagOf == [array |-> 0, bitarray |-> 1, blob |-> 2, choice |-> 3, opt |-> 4, struct |-> 5, bool |-> 6, fourcc |-> 7, int |-> 9]
HasTag(bs, p, t) == p < Len(bs) /\ bs[p + 1] = TagOf[t]

TakeBytes(bs, p, n) == IF p + n > Len(bs) THEN Err ELSE Ok(<<1>> \o Bytes(bs, p, n), p + n)
TaggedInt(bs, p)   == IF HasTag(bs, p, "int") THEN Vlq(bs, p + 1) ELSE Err
Sized(bs, p, t, Size(_)) ==
  IF ~HasTag(bs, p, t) THEN Err
  ELSE LET n == Vlq(bs, p + 1)
       IN IF ~IsOk(n) THEN n ELSE TakeBytes(bs, n.p, Size(Small(n.v)))
TaggedBlob(bs, p)     == Sized(bs, p, "blob", LAMBDA n : n)
TaggedBitArray(bs, p) == Sized(bs, p, "bitarray", LAMBDA n : (n + 7) \div 8)
TaggedBool(bs, p)  == IF HasTag(bs, p, "bool") /\ p + 2 <= Len(bs)
                      THEN Ok(<<2, IF bs[p + 2] = 0 THEN 0 ELSE 1>>, p + 2) ELSE Err
TaggedFourCC(bs, p) == IF HasTag(bs, p, "fourcc") /\ p + 5 <= Len(bs)
                       THEN Ok(Num(0, <<bs[p + 5] + 256 * bs[p + 4], bs[p + 3] + 256 * bs[p + 2]>>), p + 5) ELSE Err

(*-------------------------- bit-packed encoding --------------------------*)
(* At most eight bits: inside a byte they are read as they stand; across a  *)
(* byte boundary the bits of the first byte are the more significant ones.  *)
Chunk(bs, bp, c) ==                \* bp + c <= 8 * Len(bs)
  LET o == bp % 8 i == (bp \div 8) + 1
  IN IF c <= 8 - o THEN (bs[i] \div Pow2[o]) % Pow2[c]
     ELSE LET l == c - (8 - o) IN (bs[i] \div Pow2[o]) * Pow2[l] + (bs[i + 1] % Pow2[l])
(* More bits are read in chunks, the most significant first: up to the next *)
(* byte boundary, then whole bytes, and the last one to eight bits at once. *)
ChunkLen(bp, n) == IF n > 8 THEN 8 - (bp % 8) ELSE n
RECURSIVE BitsInt(_, _, _, _)
BitsInt(bs, bp, n, acc) ==         \* n <= 30 in all
  IF n = 0 THEN acc
  ELSE LET c == ChunkLen(bp, n) IN BitsInt(bs, bp + c, n - c, acc * Pow2[c] + Chunk(bs, bp, c))
RECURSIVE BitsMag(_, _, _, _)
BitsMag(bs, bp, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET c == ChunkLen(bp, n) IN BitsMag(bs, bp + c, n - c, MagShl(acc, c, Chunk(bs, bp, c), 1))
Has(bs, bp, n) == bp + n <= 8 * Len(bs)
(* n <= 64 bits as a signed 64-bit number *)
Bits(bs, bp, n) == IF n > 64 \/ ~Has(bs, bp, n) THEN Err
                   ELSE Ok(IF n <= 30 THEN NumOf(BitsInt(bs, bp, n, 0)) ELSE Wrap64(Num(0, BitsMag(bs, bp, n, <<>>))), bp + n)
(* the same where only lengths and variant numbers are read: a small integer *)
BitsSmall(bs, bp, n) == IF ~Has(bs, bp, n) THEN Err ELSE Ok(BitsInt(bs, bp, n, 0), bp + n)
PackedInt(bs, bp, o, n) ==
  LET r == Bits(bs, bp, n) IN IF IsOk(r) /\ o # "0" THEN Ok(Wrap64(NumAdd(Offsets[o], r.v)), r.p) ELSE r
BitBool(bs, bp) == IF Has(bs, bp, 1) THEN Ok(<<2, Chunk(bs, bp, 1)>>, bp + 1) ELSE Err
(* n bits as bytes, the rest of n modulo 8 in the last one.  Reading no bits *)
(* at all gives one byte 0: a known defect of the library that its own test  *)
(* suite demands (an empty text of the lobby becomes a text of one NUL).     *)
BitArray(bs, bp, n) ==
  IF ~Has(bs, bp, n) THEN Err
  ELSE IF n = 0 THEN Ok(<<1, 0>>, bp)
  ELSE IF bp % 8 = 0 /\ n % 8 = 0 THEN Ok(<<1>> \o Bytes(bs, bp \div 8, n \div 8), bp + n)
  ELSE LET k == (n + 7) \div 8
       IN Ok(<<1>> \o [i \in 1..k |-> Chunk(bs, bp + 8 * (i - 1), IF i < k THEN 8 ELSE n - 8 * (k - 1))], bp + n)
Align(bp) == IF bp % 8 = 0 THEN bp ELSE bp + 8 - (bp % 8)

(*----------------------- values of the protocol types ---------------------*)
(* the field or variant with tag g, 0 when there is none; most tags count from 0 *)
WithTag(fs, g) == IF g < Len(fs) /\ fs[g + 1].g = g THEN g + 1
                  ELSE IF \E j \in DOMAIN fs : fs[j].g = g THEN CHOOSE j \in DOMAIN fs : fs[j].g = g
                  ELSE 0

RECURSIVE Dec(_, _, _, _), DecList(_, _, _, _, _, _), DecFields(_, _, _, _, _, _), DecBFields(_, _, _, _, _, _)
Dec(S, t, bs, p) ==
  CASE t.k = "ref"    -> Dec(S, S[t.n], bs, p)
    [] t.k = "int"    -> LET r == TaggedInt(bs, p) IN IF IsOk(r) /\ ~Fits(r.v, t.r) THEN Err ELSE r
    [] t.k = "pint"   -> PackedInt(bs, p, t.o, t.w)
    [] t.k = "bbool"  -> BitBool(bs, p)
    [] t.k = "bopt"   -> IF ~Has(bs, p, 1) THEN Err
                         ELSE IF Chunk(bs, p, 1) = 0 THEN Ok(Unit, p + 1) ELSE Dec(S, t.t, bs, p + 1)
    [] t.k = "bstruct" -> DecBFields(S, t.f, bs, p, 1, [x \in {} |-> Unit])
    [] t.k = "benum"  -> LET n == BitsSmall(bs, p, t.w)
                             cand == WithTag(t.v, n.v)
                         IN IF ~IsOk(n) \/ cand = 0 THEN Err
                            ELSE LET w == t.v[cand]
                                     r == Dec(S, w.t, bs, n.p)
                                 IN IF IsOk(r) THEN Ok(<<8, w.n, r.v>>, r.p) ELSE r
    [] t.k = "list"   -> LET n == BitsSmall(bs, p, t.w)
                         IN IF ~IsOk(n) THEN n ELSE DecList(S, t.t, bs, n.p, n.v, <<4>>)
    [] t.k = "struct" -> IF ~HasTag(bs, p, "struct") THEN Err
                         ELSE LET n == Vlq(bs, p + 1)
                              IN IF ~IsOk(n) THEN n
                                 ELSE IF t.f = <<>> /\ n.v # NumOf(0) THEN DontCare          \* a structure without fields: generated readers skip the count
                                 ELSE DecFields(S, t.f, bs, n.p, Small(n.v), [x \in {} |-> Unit])
    [] t.k \in {"enum", "choice"} ->
                         LET b == IF t.k = "enum" THEN "int" ELSE "choice"
                             n == IF HasTag(bs, p, b) THEN Vlq(bs, p + 1) ELSE Err
                         IN IF ~IsOk(n) THEN n
                            ELSE LET cand == WithTag(t.v, Small(n.v))
                                 IN IF cand = 0 THEN Err
                                    ELSE LET w == t.v[cand]
                                             r == Dec(S, w.t, bs, n.p)
                                         IN IF IsOk(r) THEN Ok(<<8, w.n, r.v>>, r.p) ELSE r
    [] t.k = "blob"   -> TaggedBlob(bs, p)
    [] t.k = "opt"    -> IF ~HasTag(bs, p, "opt") \/ p + 2 > Len(bs) THEN Err
                         ELSE IF bs[p + 2] = 0 THEN Ok(Unit, p + 2) ELSE Dec(S, t.t, bs, p + 2)
    [] t.k = "arr"    -> IF ~HasTag(bs, p, "array") THEN Err
                         ELSE LET n == Vlq(bs, p + 1)
                              IN IF ~IsOk(n) THEN n ELSE DecList(S, t.t, bs, n.p, Small(n.v), <<4>>)
    [] t.k = "bool"   -> TaggedBool(bs, p)
    [] t.k = "fourcc" -> TaggedFourCC(bs, p)
    [] t.k = "unit"   -> Ok(Unit, p)
    [] t.k = "byte"   -> LET r == BitsSmall(bs, p, 8) IN IF IsOk(r) THEN Ok(NumOf(r.v), r.p) ELSE r
    [] t.k = "bfourcc" -> BitArray(bs, p, 32)
    [] t.k = "null"   -> Ok(Unit, p)
    [] t.k = "str"    -> LET n == BitsSmall(bs, p, t.w)
                         IN IF ~IsOk(n) THEN n ELSE BitArray(bs, Align(n.p), 8 * n.v)
    [] t.k = "fix"    -> BitArray(bs, Align(p), 8 * t.n)
    [] t.k = "bitsnum" -> LET n == BitsSmall(bs, p, t.w)
                          IN IF ~IsOk(n) THEN n ELSE Bits(bs, n.p, n.v)
    [] t.k = "bitsarr" -> LET n == BitsSmall(bs, p, t.w)
                          IN IF ~IsOk(n) THEN n ELSE BitArray(bs, n.p, n.v)

(* Long lists are read in stretches, which keeps the evaluation shallow. *)
Stretch == 64
DecList(S, t, bs, p, n, acc) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE IF n = 1 THEN LET r == Dec(S, t, bs, p) IN IF IsOk(r) THEN Ok(Append(acc, r.v), r.p) ELSE r
  ELSE LET m == IF n < Stretch THEN n ELSE Stretch
           d == SX!FoldLeft(LAMBDA a, i : IF IsOk(a) THEN LET r == Dec(S, t, bs, a.p) IN IF IsOk(r) THEN Ok(Append(a.v, r.v), r.p) ELSE r ELSE a,
                         Ok(acc, p), [i \in 1..m |-> i])
       IN IF IsOk(d) THEN DecList(S, t, bs, d.p, n - m, d.v) ELSE d

(* Fields come in any order; one that is there already (with a value) may   *)
(* not come again, unknown ones may not come at all.                        *)
DecFields(S, fs, bs, p, n, acc) ==
  IF n = 0
  THEN IF Cardinality(DOMAIN acc) = Len(fs) THEN Ok(<<5, acc>>, p)
       ELSE
       LET Missing == {i \in DOMAIN fs : fs[i].n \notin DOMAIN acc}
       IN IF \E i \in Missing : fs[i].d = "req" THEN Err
          ELSE Ok(<<5, [x \in {fs[i].n : i \in Missing} |-> IF \E i \in Missing : fs[i].n = x /\ fs[i].d = "empty" THEN <<1>> ELSE Unit] @@ acc>>, p)
  ELSE LET g == Vlq(bs, p)
       IN IF ~IsOk(g) THEN g
          ELSE LET cand == WithTag(fs, Small(g.v))
               IN IF cand = 0 THEN Err
                  ELSE LET f == fs[cand]
                       IN IF f.n \in DOMAIN acc /\ ~(f.d = "opt" /\ acc[f.n] = Unit) THEN Err
                          ELSE LET r == Dec(S, f.t, bs, g.p)
                               IN IF IsOk(r) THEN DecFields(S, fs, bs, r.p, n - 1, (f.n :> r.v) @@ acc) ELSE r
DecBFields(S, fs, bs, p, i, acc) ==
  IF i > Len(fs) THEN Ok(<<5, acc>>, p)
  ELSE LET r == Dec(S, fs[i].t, bs, p)
       IN IF IsOk(r) THEN DecBFields(S, fs, bs, r.p, i + 1, acc @@ (fs[i].n :> r.v)) ELSE r

(*------------------------------- encoding --------------------------------*)
RECURSIVE EncGroups(_, _)
EncGroups(m, s) ==                 \* the groups of seven bits from bit s on
  LET hi == MagTrim([i \in DOMAIN m |-> IF 16 * i <= s THEN 0 ELSE IF 16 * (i - 1) >= s THEN m[i] ELSE m[i] \div Pow2[s - 16 * (i - 1)]])
  IN IF hi = <<>> THEN <<>>
     ELSE LET rest == EncGroups(m, s + 7)
          IN <<MagBits(m, s, 7) + (IF rest = <<>> THEN 0 ELSE 128)>> \o rest
EncVlq(v) == LET m == Mag(v) rest == EncGroups(m, 6)
             IN <<v[2] + 2 * MagBits(m, 0, 6) + (IF rest = <<>> THEN 0 ELSE 128)>> \o rest
EncTagged(t, body) == <<TagOf[t]>> \o body
EncInt(v) == EncTagged("int", EncVlq(v))
EncBlob(b) == EncTagged("blob", EncVlq(NumOf(Len(b))) \o b)

(* Bit-packed output: the bytes so far and the number of bits used.  Unused *)
(* bits of the last byte are 0.                                            *)
Put(bits, bp, x, c) ==             \* c <= 8 bits of the number x at position bp
  LET o == bp % 8 i == (bp \div 8) + 1
      need == (bp + c + 7) \div 8
      out == bits \o [j \in 1..(IF need > Len(bits) THEN need - Len(bits) ELSE 0) |-> 0]
  IN IF c = 0 THEN bits
     ELSE IF c <= 8 - o THEN [out EXCEPT ![i] = @ + x * Pow2[o]]
     ELSE LET l == c - (8 - o)
          IN [out EXCEPT ![i] = @ + (x \div Pow2[l]) * Pow2[o], ![i + 1] = @ + (x % Pow2[l])]
RECURSIVE PutBits(_, _, _, _)
PutBits(bits, bp, m, n) ==         \* the lowest n bits of the magnitude m
  IF n = 0 THEN bits
  ELSE LET c == ChunkLen(bp, n) IN PutBits(Put(bits, bp, MagBits(m, n - c, c), c), bp + c, m, n - c)
RECURSIVE PutArray(_, _, _, _)
PutArray(bits, bp, b, n) ==        \* n bits of the bytes b
  IF n = 0 THEN bits
  ELSE LET c == IF n > 8 THEN 8 ELSE n IN PutArray(Put(bits, bp, b[1] % Pow2[c], c), bp + c, Tail(b), n - c)
=============================================================================
