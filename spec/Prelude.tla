------------------------------ MODULE Prelude ------------------------------
(***************************************************************************)
(* Values shared by all modules.                                           *)
(*                                                                         *)
(* Option  : <<>> is "none", <<v>> is "some v" (JSON: [] and [v]).         *)
(* Dyadic  : <<n, e>> is the exact value n * 2^e with n odd, or <<0, 0>>;  *)
(*           every finite 32-bit float has exactly one such form with     *)
(*           |n| < 2^24, so float equality is exact equality of pairs.     *)
(* Tag     : <<index, recycle>>, the two parts of a 32-bit unit tag; the   *)
(*           numeric order of tags is the lexicographic order of pairs.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<>>
Some(v) == <<v>>
IsSome(o) == Len(o) = 1
Get(o) == o[1]

RECURSIVE DyNorm(_, _)
DyNorm(n, e) == IF n = 0 THEN <<0, 0>>
                ELSE IF n % 2 = 0 THEN DyNorm(n \div 2, e + 1)
                ELSE <<n, e>>
DyInt(n) == DyNorm(n, 0)
DyDouble(d) == IF d[1] = 0 THEN d ELSE <<d[1], d[2] + 1>>
DyHalf(d)   == IF d[1] = 0 THEN d ELSE <<d[1], d[2] - 1>>
DyNeg(d)    == <<-d[1], d[2]>>
DyShift(d, k) == IF d[1] = 0 THEN d ELSE <<d[1], d[2] + k>>

Range(s) == {s[i] : i \in DOMAIN s}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

TagLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(* The sorted sequence without duplicates of a set of tags (or of integers). *)
RECURSIVE SortTags(_)
SortTags(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : TagLess(x, y)
                    IN <<m>> \o SortTags(S \ {m})
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                    IN <<m>> \o SortInts(S \ {m})

(* f without the keys in S; f with k mapped to v *)
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
=============================================================================
