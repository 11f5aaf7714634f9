-------------------------------- MODULE GenMC --------------------------------
(***************************************************************************)
(* Every small bit-packed type: the layout that the generator has to give   *)
(* it holds every value that its bounds allow, in no more bits than needed.  *)
(* A state is a type and one of its values as written.                       *)
(***************************************************************************)
EXTENDS Generator, Json, IOUtils
Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"

B(mn, mx, i, w) == [min |-> mn, max |-> mx, incl |-> i, pow |-> w]
Bit  == [p |-> "NNet.Game", last |-> "TBit", full |-> "NNet.Game.TBit", rust |-> "GameTBit", t |-> [k |-> "int", b |-> B("0", 0, 0, 1)]]
UBit == [k |-> "user", full |-> Bit.full, rust |-> Bit.rust]
Ds == <<Bit>>
S  == [r \in {"GameTBit"} |-> BitType(Ds, Bit.full, Bit.t)]

Names == <<"Aa", "Bb", "Cc", "Dd", "Ee", "Ff", "Gg", "Hh", "Ii", "Jj", "Kk", "Ll", "Mm", "Nn", "Oo", "Pp", "Qq">>
Raws  == <<"e_aa", "e_bb", "e_cc", "e_dd", "e_ee", "e_ff", "e_gg", "e_hh", "e_ii", "e_jj", "e_kk", "e_ll", "e_mm", "e_nn", "e_oo", "e_pp", "e_qq">>
Item(i, t) == [raw |-> Raws[i], n |-> "E" \o Names[i], v |-> i - 1, t |-> t]
Part(i, t) == [raw |-> <<"m_aa", "m_bb", "m_cc">>[i], n |-> <<"m_aa", "m_bb", "m_cc">>[i], v |-> -1, t |-> t]

Top   == IF Deep THEN 70 ELSE 20
Ints  == {[k |-> x, b |-> B("0", m, i, -1)] : x \in {"int", "inum"}, m \in 1..Top, i \in {0, 1}} \cup {[k |-> "int", b |-> B("0", 0, 0, w)] : w \in 1..16}
         \cup {[k |-> "int", b |-> B("-8", 0, 0, 3)], [k |-> "int", b |-> B("-8", 7, 1, -1)], [k |-> "int", b |-> B("-128", 128, 0, -1)], [k |-> "int", b |-> B("-2", 0, 0, 1)]}
Lists == {[k |-> x, t |-> UBit, b |-> B("0", m, 1, -1)] : x \in {"array", "dynarray"}, m \in 1..(IF Deep THEN 40 ELSE 17)}
Texts2 == {[k |-> "string", b |-> B("0", m, 1, -1)] : m \in (1..20) \ {1, 3, 7, 15}} \cup {[k |-> "bits", b |-> B("0", m, i, -1)] : m \in 2..20, i \in {0, 1}}
Fixed == {[k |-> "fix", b |-> B(ToString(m), m, 1, -1)] : m \in 1..(IF Deep THEN 20 ELSE 6)}
Enums == {[k |-> "enum", f |-> [i \in 1..n |-> Item(i, [k |-> "null"])]] : n \in 1..17}
Alts  == {[k |-> "null"], [k |-> "bool"], UBit, [k |-> "opt", t |-> UBit]}
Choices == UNION {{[k |-> "choice", f |-> [i \in 1..n |-> Item(i, a[i])]] : a \in [1..n -> Alts]} : n \in 1..(IF Deep THEN 4 ELSE 3)}
Inner == {[k |-> "bool"], UBit, [k |-> "int", b |-> B("0", 5, 1, -1)], [k |-> "array", t |-> UBit, b |-> B("0", 3, 1, -1)], [k |-> "int", b |-> B("0", 0, 0, 9)], [k |-> "int", b |-> B("-8", 0, 0, 3)]}
Parts == Inner \cup {[k |-> "opt", t |-> x] : x \in Inner}
Structs == UNION {{[k |-> "struct", f |-> [i \in 1..n |-> Part(i, a[i])]] : a \in [1..n -> Parts]} : n \in 0..2}
Types == Ints \cup Lists \cup Texts2 \cup Fixed \cup Enums \cup Choices \cup Structs

(* some values of a type, the extreme ones among them *)
RECURSIVE Values(_)
Values(t) ==
  CASE t.k \in {"int", "inum"} -> LET top == IF t.b.pow >= 0 THEN Pow2[t.b.pow] - 1 ELSE Largest(t.b)
                                  IN IF Begins(t.b.min, "-") THEN {NumOf(0), NumOf(top), NumOf(-1), Offsets[t.b.min]} ELSE {NumOf(0), NumOf(top), NumOf((top + 1) \div 2)}
    [] t.k = "bool" -> {<<2, 0>>, <<2, 1>>}
    [] t.k = "null" -> {Unit}
    [] t.k = "user" -> {NumOf(0), NumOf(1)}
    [] t.k = "opt" -> {Unit} \cup Values(t.t)
    [] t.k \in {"array", "dynarray"} -> {<<4>> \o [i \in 1..n |-> NumOf((i \div 2) % 2)] : n \in {0, 1, t.b.max}}
    [] t.k = "string" -> {<<1>> \o [i \in 1..n |-> (37 * i) % 256] : n \in {1, 4 * t.b.max}}
    [] t.k = "fix" -> {<<1>> \o [i \in 1..t.b.max |-> (x * i) % 256] : x \in {37, 255}}
    [] t.k = "bits" -> {<<1>> \o [i \in 1..((n + 7) \div 8) |-> IF 8 * i > n THEN Pow2[n - 8 * (i - 1)] - 1 ELSE 165] : n \in {1, Largest(t.b)}}
    [] t.k = "enum" -> {<<8, t.f[i].n, Unit>> : i \in DOMAIN t.f}
    [] t.k = "choice" -> UNION {{<<8, t.f[i].n, x>> : x \in Values(t.f[i].t)} : i \in DOMAIN t.f}
    [] t.k = "struct" -> IF Len(t.f) = 0 THEN {<<5, [x \in {} |-> Unit]>>}
                         ELSE IF Len(t.f) = 1 THEN {<<5, ("m_aa" :> x)>> : x \in Values(t.f[1].t)}
                         ELSE {<<5, ("m_aa" :> x) @@ ("m_bb" :> y)>> : x \in Values(t.f[1].t), y \in Values(t.f[2].t)}

(* o: what is written so far *)
Out(o, x, n) == [b |-> PutBits(o.b, o.p, MagOf(x), n), p |-> o.p + n]
BitsOf(t, v) == IF t.k = "string" THEN 8 * (Len(v) - 1)
                ELSE CHOOSE n \in {1, Largest(t.b)} : (n + 7) \div 8 = Len(v) - 1 /\ v[Len(v)] = (IF n % 8 = 0 THEN 165 ELSE Pow2[n % 8] - 1)
RECURSIVE Write(_, _, _)
Write(o, t, v) ==
  CASE t.k \in {"int", "inum"} -> LET low == IF Begins(t.b.min, "-") THEN Small(Num(0, Mag(Offsets[t.b.min]))) ELSE 0
                                  IN Out(o, (IF Neg(v) THEN -Small(Num(0, Mag(v))) ELSE Small(v)) + low, IntWidth(t.b))
    [] t.k = "bool" -> Out(o, v[2], 1)
    [] t.k = "null" -> o
    [] t.k = "user" -> Out(o, Small(v), 1)
    [] t.k = "opt" -> IF v = Unit THEN Out(o, 0, 1) ELSE Write(Out(o, 1, 1), t.t, v)
    [] t.k \in {"array", "dynarray"} -> SX!FoldLeft(LAMBDA a, i : Write(a, t.t, v[i + 1]), Out(o, Len(v) - 1, ListWidth(t.b)), [i \in 1..(Len(v) - 1) |-> i])
    [] t.k = "string" -> LET h == Out(o, Len(v) - 1, TextWidth(t.b)) IN [b |-> h.b \o Tail(v), p |-> Align(h.p) + 8 * (Len(v) - 1)]
    [] t.k = "fix" -> [b |-> o.b \o Tail(v), p |-> Align(o.p) + 8 * (Len(v) - 1)]
    [] t.k = "bits" -> LET n == BitsOf(t, v) h == Out(o, n, ListWidth(t.b)) IN [b |-> PutArray(h.b, h.p, Tail(v), n), p |-> h.p + n]
    [] t.k \in {"enum", "choice"} -> LET i == CHOOSE i \in DOMAIN t.f : t.f[i].n = v[2]
                                     IN Write(Out(o, t.f[i].v, TagWidth(Len(t.f))), t.f[i].t, v[3])
    [] t.k = "struct" -> SX!FoldLeft(LAMBDA a, i : Write(a, t.f[i].t, v[2][t.f[i].n]), o, [i \in DOMAIN t.f |-> i])

VARIABLES t, v
Init == t \in Types /\ v \in Values(t)
Spec == Init /\ [][FALSE]_<<t, v>>
Written == Write([b |-> <<>>, p |-> 0], t, v)
Enough == LET r == Dec(S, BitType(Ds, "", t), Written.b, 0)
          IN IsOk(r) /\ r.p = Written.p /\ r.v = v
Tight == CASE t.k \in {"int", "inum"} /\ t.b.pow < 0 /\ t.b.min = "0" -> Largest(t.b) < Pow2[IntWidth(t.b)] /\ (IntWidth(t.b) > 0 => Largest(t.b) >= Pow2[IntWidth(t.b) - 1])
           [] t.k \in {"array", "dynarray", "bits"} -> Largest(t.b) >= Pow2[ListWidth(t.b) - 1] /\ Largest(t.b) < Pow2[ListWidth(t.b)]
           [] t.k \in {"enum", "choice"} -> Len(t.f) <= Pow2[TagWidth(Len(t.f))] /\ (TagWidth(Len(t.f)) > 0 => Len(t.f) > Pow2[TagWidth(Len(t.f)) - 1])
           [] OTHER -> TRUE
Vector == PrintT("@VEC " \o ToJson([t |-> t, b |-> Written.b]))
=============================================================================
