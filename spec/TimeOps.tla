------------------------------- MODULE TimeOps -------------------------------
(***************************************************************************)
(* Dates and durations.  A file time counts tenths of microseconds since    *)
(* 1601; the date of a replay is that time less the local offset, as a date *)
(* of the proleptic Gregorian calendar.  Durations are loops at 68.58391 ms.*)
(***************************************************************************)
EXTENDS Lib
(*------------------------------- arithmetic -------------------------------*)
RECURSIVE MagDivAt(_, _, _, _)
(* limbs 1..i of m, with a remainder r above them, divided by d < 2^14: <<quotient, remainder>> *)
MagDivAt(m, i, r, d) == IF i = 0 THEN <<<<>>, r>>
                        ELSE LET t == r * B16 + m[i]                    \* < 2^30
                                 q == MagDivAt(m, i - 1, t % d, d)
                             IN <<q[1] \o <<t \div d>>, q[2]>>
MagDiv(m, d) == LET q == MagDivAt(m, Len(m), 0, d) IN <<MagTrim(q[1]), q[2]>>
RECURSIVE MagMulAt(_, _, _, _)
MagMulAt(m, k, i, c) == IF i > Len(m) THEN MagOf(c) ELSE LET t == m[i] * k + c IN <<t % B16>> \o MagMulAt(m, k, i + 1, t \div B16)
MagMul(m, k) == MagTrim(MagMulAt(m, k, 1, 0))                            \* k <= 2^14
MagTimes(m, k) == MagTrim(MagAdd(MagMul(m, k % 16384), MagMul(MagMul(m, k \div 16384), 16384)))
NumNeg(v) == Num(1 - v[2], Mag(v))
NumSub(a, b) == NumAdd(a, NumNeg(b))
(* division towards minus infinity by d: <<quotient, remainder>> *)
FloorDiv(v, d) == LET q == MagDiv(Mag(v), d)
                  IN IF ~Neg(v) THEN <<Num(0, q[1]), q[2]>>
                     ELSE IF q[2] = 0 THEN <<Num(1, q[1]), 0>> ELSE <<Num(1, MagAdd(q[1], <<1>>)), d - q[2]>>
(* division towards zero by 10 *)
Tenth(v) == Num(v[2], MagDiv(Mag(v), 10)[1])

(*---------------------------------- dates ---------------------------------*)
(* 11644473600 seconds from 1601 to 1970, in microseconds *)
Epoch == Num(0, MagMul(MagMul(<<37120, 46608, 2>>, 1000), 1000))
Micros(utc, off) == NumSub(NumSub(Tenth(utc), Epoch), Tenth(off))
IntOf(v) == LET m == Mag(v) n == Limb(m, 1) + B16 * Limb(m, 2) IN IF Neg(v) THEN -n ELSE n      \* of what fits 31 bits
FDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((b - 1 - a) \div b)
FMod(a, b) == a - b * FDiv(a, b)
(* years count from March, so that leap days come last *)
Civil(days) ==
  LET z == days + 719468
      era == FDiv(z, 146097)
      doe == FMod(z, 146097)
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - ((153 * mp + 2) \div 5) + 1]
RECURSIVE Padded(_, _)
Padded(n, w) == IF w = 0 THEN <<>> ELSE Padded(n \div 10, w - 1) \o <<48 + (n % 10)>>
Wide(n, w) == LET s == Decimal(n) IN IF Len(s) >= w THEN s ELSE Padded(n, w)
YearText(y) == IF y < 0 THEN <<45>> \o Wide(-y, 4) ELSE IF y > 9999 THEN <<43>> \o Wide(y, 4) ELSE Padded(y, 4)
Fraction(us) == IF us = 0 THEN <<>> ELSE <<46>> \o (IF us % 1000 = 0 THEN Padded(us \div 1000, 3) ELSE Padded(us, 6))
DateText(us) ==
  LET a == FloorDiv(us, 1000)        \* milliseconds
      b == FloorDiv(a[1], 1000)      \* seconds
      c == FloorDiv(b[1], 60)
      e == FloorDiv(c[1], 60)
      f == FloorDiv(e[1], 24)
      g == Civil(IntOf(f[1]))
  IN <<1>> \o YearText(g.y) \o <<45>> \o Padded(g.m, 2) \o <<45>> \o Padded(g.d, 2) \o <<84>>
     \o Padded(f[2], 2) \o <<58>> \o Padded(e[2], 2) \o <<58>> \o Padded(c[2], 2) \o Fraction(1000 * b[2] + a[2])
(* Years of the calendar library: -262143 to 262142.  All file times of 64 bits are within. *)
EpochText == DateText(Zero)

(*-------------------------------- durations -------------------------------*)
(* A loop is 6858391 / 10^8 seconds; single precision is off by less than one part in 2^21. *)
Million21(m) == MagMul(MagMul(m, 4096), 512)                                  \* * 2^21
Lo(l) == MagSub(Million21(MagTimes(l, 6858391)), MagTimes(l, 6858391))       \* x * (2^21 - 1) * 10^8
Hi(l) == MagAdd(Million21(MagTimes(l, 6858391)), MagTimes(l, 6858391))
Sec(s) == Million21(MagMul(MagMul(s, 10000), 10000))
Top == <<65535, 65535>>
(* s whole seconds for all loops from a to b *)
RunOk(r) ==
  LET a == Mag(r[1]) b == Mag(r[2]) s == Mag(r[3])
  IN IF Neg(r[2]) THEN s = <<>>
     ELSE /\ (Neg(r[1]) => s = <<>>)
          /\ (Neg(r[1]) \/ ~MagLess(Hi(a), Sec(s)))                            \* s <= x(a) * (1 + e)
          /\ (s = Top \/ MagLess(Lo(b), Sec(MagAdd(s, <<1>>))))                \* s + 1 > x(b) * (1 - e)
=============================================================================
