------------------------------- MODULE WireMC -------------------------------
(***************************************************************************)
(* A writer that puts a few values of either encoding into a stream.  TLC   *)
(* explores all choices of the bounded value sets below and checks that     *)
(* reading back gives exactly the values, at exactly the positions, that    *)
(* were written (the round trip of C12 and C13), and that no proper prefix  *)
(* of the stream reads as the whole.  Every finished stream is printed and  *)
(* replayed into the implementation.                                       *)
(***************************************************************************)
EXTENDS WireOps, Json, IOUtils

Mode == IOEnv.MODE            \* "aligned" or "packed"
Deep == IOEnv.DEEP = "1"

VARIABLES bs, p, ops, vals    \* bytes, position, operations that read them, what these give
vars == <<bs, p, ops, vals>>

(*-------------------------------- packed ---------------------------------*)
Ones == <<65535, 65535, 65535, 65535>>
Patterns == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, Ones, <<21845, 21845, 21845, 21845>>, <<52719, 35243, 17767, 291>>}
            \cup (IF Deep THEN {<<43690, 43690, 43690, 43690>>, <<65534, 65535, 65535, 32767>>, <<255, 65280, 255, 65280>>} ELSE {})
LowBits(m, n) == MagTrim([i \in 1..4 |-> IF n >= 16 * i THEN m[i] ELSE IF n <= 16 * (i - 1) THEN 0 ELSE m[i] % Pow2[n - 16 * (i - 1)]])
TopBit(n) == IF n = 0 THEN <<0, 0, 0, 0>> ELSE [i \in 1..4 |-> IF (n - 1) \div 16 = i - 1 THEN Pow2[(n - 1) % 16] ELSE 0]

BitWrites(W) == [op : {<<"bits", n>> : n \in W}, m : Patterns \cup {"top"}]
PutNum(o, n, m) ==            \* the low n bits of m are written, the offset o makes the value
  /\ bs' = PutBits(bs, p, m, n)
  /\ p' = p + n
  /\ vals' = Append(vals, Wrap64(NumAdd(Offsets[o], Num(0, m))))
PackedBits(W) ==
  \E n \in W : \E m \in {LowBits(x, n) : x \in Patterns \cup {TopBit(n)}} :
     PutNum("0", n, m) /\ ops' = Append(ops, <<"bits", n>>)
PackedOffset ==
  \E o \in DOMAIN Offsets : \E n \in {1, 7, 8, 16, 31, 32, 33, 63, 64} : \E m \in {LowBits(x, n) : x \in Patterns \cup {TopBit(n)}} :
     PutNum(o, n, m) /\ ops' = Append(ops, <<"pint", o, n>>)
Texts == {<<171>>, <<0, 255>>, <<83, 50, 109, 97>>, <<1, 2, 3, 4, 5, 254>>}
PackedArray ==
  \E b \in Texts : \E n \in (8 * Len(b) - 7)..(8 * Len(b)) :
     LET c == n - 8 * (Len(b) - 1)
     IN /\ bs' = PutArray(bs, p, b, n) /\ p' = p + n
        /\ vals' = Append(vals, <<1>> \o [b EXCEPT ![Len(b)] = @ % Pow2[c]])
        /\ ops' = Append(ops, <<"arr", n>>)
PackedEmptyArray == /\ UNCHANGED <<bs, p>> /\ vals' = Append(vals, <<1>>) /\ ops' = Append(ops, <<"arr", 0>>)
PackedFour == /\ bs' = PutArray(bs, p, <<83, 50, 0, 255>>, 32) /\ p' = p + 32
              /\ vals' = Append(vals, <<1, 83, 50, 0, 255>>) /\ ops' = Append(ops, <<"bfourcc">>)
PackedByte == \E b \in {0, 1, 128, 165, 255} :
                /\ bs' = Put(bs, p, b, 8) /\ p' = p + 8
                /\ vals' = Append(vals, NumOf(b)) /\ ops' = Append(ops, <<"byte">>)
PackedBool == \E b \in {0, 1} : /\ bs' = Put(bs, p, b, 1) /\ p' = p + 1
                                /\ vals' = Append(vals, <<2, b>>) /\ ops' = Append(ops, <<"bbool">>)
PackedAlign == /\ p' = 8 * Len(bs) /\ bs' = bs /\ vals' = Append(vals, Unit) /\ ops' = Append(ops, <<"align">>)
PackedNull == /\ UNCHANGED <<bs, p>> /\ vals' = Append(vals, Unit) /\ ops' = Append(ops, <<"null">>)

PackedNext ==
  \/ Len(ops) = 0 /\ \E n \in 0..7 : \E m \in {LowBits(Ones, n)} \cup (IF Deep THEN {<<>>} ELSE {}) :
                        PutNum("0", n, m) /\ ops' = Append(ops, <<"bits", n>>)
  \/ Len(ops) = 1 /\ \/ PackedBits(0..64) \/ PackedOffset \/ PackedArray \/ PackedEmptyArray \/ PackedFour \/ PackedByte
                     \/ PackedBool \/ PackedAlign \/ PackedNull
  \/ Len(ops) = 2 /\ PutNum("0", 13, <<2731>>) /\ ops' = Append(ops, <<"bits", 13>>)
  \/ Deep /\ Len(ops) = 2 /\ (PackedByte \/ PackedBits({3, 31}))
  \/ Len(ops) = 3 /\ PackedAlign

(*-------------------------------- aligned --------------------------------*)
(* Around every group boundary of the integer encoding. *)
P2(e) == [i \in 1..4 |-> IF e \div 16 = i - 1 THEN Pow2[e % 16] ELSE 0]
Magnitudes == {MagTrim(P2(e)) : e \in 0..62} \cup {MagSub(MagTrim(P2(e)), <<1>>) : e \in 0..63}
              \cup {MagAdd(MagTrim(P2(e)), <<1>>) : e \in {1, 5, 6, 7, 12, 13, 14, 20, 27, 30, 31, 32, 34, 41, 48, 55, 61, 62}}
              \cup {LowBits(x, 63) : x \in Patterns}
Numbers == {Num(s, m) : s \in {0, 1}, m \in Magnitudes} \cup {Num(1, M63)}
Write(op, b, v) == /\ bs' = bs \o b /\ p' = p + Len(b) /\ ops' = Append(ops, op) /\ vals' = Append(vals, v)
AlignedInt == \E v \in Numbers : Write(<<"int">>, EncInt(v), v) \/ Write(<<"vlq">>, EncVlq(v), v)
Longs == {<<>>, <<7>>, <<0, 1, 255>>, [i \in 1..63 |-> (i * 37) % 256], [i \in 1..64 |-> i], [i \in 1..130 |-> 255 - i]}
AlignedBlob == \E b \in Longs : Write(<<"blob">>, EncBlob(b), <<1>> \o b)
AlignedBits == \E b \in {<<5>>, <<255, 1>>, <<1, 2, 3>>} : \E n \in (8 * Len(b) - 7)..(8 * Len(b)) :
                 Write(<<"bitarray">>, EncTagged("bitarray", EncVlq(NumOf(n)) \o b), <<1>> \o b)
AlignedNoBits == Write(<<"bitarray">>, EncTagged("bitarray", EncVlq(NumOf(0))), <<1>>)
AlignedBool == \E b \in {0, 1, 2, 128, 255} : Write(<<"bool">>, EncTagged("bool", <<b>>), <<2, IF b = 0 THEN 0 ELSE 1>>)
AlignedFour == \E b \in {<<0, 0, 0, 0>>, <<83, 50, 0, 255>>, <<255, 255, 255, 254>>, <<128, 0, 0, 1>>} :
                 Write(<<"fourcc">>, EncTagged("fourcc", b), Num(0, <<b[4] + 256 * b[3], b[2] + 256 * b[1]>>))
AlignedTag == \E t \in DOMAIN TagOf : Write(<<"tag", t>>, <<TagOf[t]>>, Unit)
AlignedNext ==
  \/ Len(ops) = 0 /\ (AlignedInt \/ AlignedBlob \/ AlignedBits \/ AlignedNoBits \/ AlignedBool \/ AlignedFour \/ AlignedTag)
  \/ Len(ops) = 1 /\ (Write(<<"int">>, EncInt(NumOf(-1000)), NumOf(-1000)) \/ Write(<<"blob">>, EncBlob(<<9, 2>>), <<1, 9, 2>>))
  \/ Deep /\ Len(ops) = 1 /\ (AlignedBool \/ AlignedFour \/ AlignedTag)

Init == bs = <<>> /\ p = 0 /\ ops = <<>> /\ vals = <<>>
Next == IF Mode = "packed" THEN PackedNext ELSE AlignedNext
Spec == Init /\ [][Next]_vars

Results == RunOps(ops, bs, 1, 0, <<>>)
(* The known defect of empty arrays (see BitArray) is the only exception.   *)
Quirk(i) == ops[i] = <<"arr", 0>>
RoundTrip == /\ Len(Results) = Len(ops)
             /\ \A i \in DOMAIN ops : IsOk(Results[i]) /\ (Quirk(i) \/ Results[i].v = vals[i])
             /\ ops # <<>> => Results[Len(ops)].p = p
(* Cut by a byte, the last operation that takes anything fails or loses.     *)
Shorter == SubSeq(bs, 1, Len(bs) - 1)
NoPrefix == bs # <<>> /\ ops # <<>> =>
              LET r == RunOps(ops, Shorter, 1, 0, <<>>) IN ~IsOk(r[Len(r)])
Finished == IF Mode = "packed" THEN Len(ops) = 4 ELSE Len(ops) = 2
Emit == Finished => PrintT("@VEC " \o ToJson([b |-> bs, ops |-> ops]))
=============================================================================
