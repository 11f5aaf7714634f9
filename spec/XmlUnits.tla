------------------------------- MODULE XmlUnits -------------------------------
(***************************************************************************)
(* The unit files of exported balance data: which elements and attributes    *)
(* there are, and the record that a document denotes.                       *)
(*                                                                         *)
(* An element is [n |-> name, a |-> <<<<attribute, text>>, ...>>,            *)
(* c |-> <<element, ...>>].  A record is <<3, field -> value>>, a value is   *)
(* <<0>> nothing, <<1, text>>, <<2, dyadic>>, <<3, ..>>, <<4, values>> a      *)
(* list, or <<6, canonical decimal>>; fields of attributes start with @.     *)
(***************************************************************************)
EXTENDS Prelude

(*--------------------------------- numbers --------------------------------*)
Digits == "0123456789"
DigitOf == TLCEval([c \in {SubSeq(Digits, i, i) : i \in 1..10} |-> (CHOOSE i \in 1..10 : SubSeq(Digits, i, i) = c) - 1])
CharsOf(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
AllDigits(cs) == cs # <<>> /\ \A i \in DOMAIN cs : cs[i] \in DOMAIN DigitOf
RECURSIVE DropZeros(_)
DropZeros(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN DropZeros(Tail(ds)) ELSE ds
(* <<negative, digits>> of a text, <<>> when it is no whole number *)
Whole(s) == LET cs == CharsOf(s)
                neg == cs # <<>> /\ cs[1] = "-"
                body == IF neg THEN Tail(cs) ELSE cs
            IN IF AllDigits(body) THEN LET d == DropZeros([i \in DOMAIN body |-> DigitOf[body[i]]]) IN <<neg /\ d # <<0>>, d>> ELSE <<>>
RECURSIVE LessEqual(_, _)
LessEqual(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE IF x = <<>> THEN TRUE ELSE x[1] < y[1] \/ (x[1] = y[1] /\ LessEqual(Tail(x), Tail(y)))
DigitsOf(s) == [i \in 1..Len(s) |-> DigitOf[SubSeq(s, i, i)]]
Highest == TLCEval([u16 |-> DigitsOf("65535"), u32 |-> DigitsOf("4294967295"), i64 |-> DigitsOf("9223372036854775807")])
Lowest == TLCEval([u16 |-> <<0>>, u32 |-> <<0>>, i64 |-> DigitsOf("9223372036854775808")])
RECURSIVE Joined(_)
Joined(ds) == IF ds = <<>> THEN "" ELSE ToString(ds[1]) \o Joined(Tail(ds))
InRange(t, w) == IF w[1] THEN LessEqual(w[2], Lowest[t]) ELSE LessEqual(w[2], Highest[t])
Canonical(w) == (IF w[1] THEN "-" ELSE "") \o Joined(w[2])

(* A decimal with up to six digits on each side, as the single-precision number nearest to it. *)
RECURSIVE Val(_)
Val(ds) == IF ds = <<>> THEN 0 ELSE 10 * Val(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
RECURSIVE Bits(_, _, _, _)
Bits(m, rem, den, e) ==
  IF rem = 0 THEN DyNorm(m, e)
  ELSE IF m >= 8388608 THEN DyNorm(IF 2 * rem > den \/ (2 * rem = den /\ m % 2 = 1) THEN m + 1 ELSE m, e)
  ELSE IF 2 * rem >= den THEN Bits(2 * m + 1, 2 * rem - den, den, e - 1)
  ELSE Bits(2 * m, 2 * rem, den, e - 1)
PointAt(cs) == IF \E i \in DOMAIN cs : cs[i] = "." THEN CHOOSE i \in DOMAIN cs : cs[i] = "." /\ \A j \in 1..(i - 1) : cs[j] # "." ELSE 0
(* <<dyadic>>, or <<>> when it is no number *)
Decimal(s) ==
  LET cs == CharsOf(s)
      neg == cs # <<>> /\ cs[1] = "-"
      body == IF neg THEN Tail(cs) ELSE cs
      p == PointAt(body)
      left == IF p = 0 THEN body ELSE SubSeq(body, 1, p - 1)
      right == IF p = 0 THEN <<>> ELSE SubSeq(body, p + 1, Len(body))
  IN IF ~AllDigits(left) \/ (p > 0 /\ ~AllDigits(right)) THEN <<>>
     ELSE LET d == [i \in DOMAIN left |-> DigitOf[left[i]]]
              f == [i \in DOMAIN right |-> DigitOf[right[i]]]
              v == Bits(Val(d), Val(f), Pow(10, Len(f)), 0)
          IN <<IF neg THEN DyNeg(v) ELSE v>>

(*--------------------------------- schema ---------------------------------*)
(* attribute: <<name, type, "must" | "opt" | "def">>; child: <<element, record, "one" | "opt" | "def" | "many">> *)
Must(n, t) == <<n, t, "must">>
Opt(n, t) == <<n, t, "opt">>
Def(n, t) == <<n, t, "def">>
Bounds == [a |-> <<Must("start", "u32"), Must("max", "u32")>>, c |-> <<>>]
Holder(n, t) == [a |-> <<>>, c |-> <<<<n, t, "many">>>>]
Schema == TLCEval([
  unit |-> [a |-> <<Must("id", "text")>>,
            c |-> <<<<"meta", "meta", "one">>, <<"life", "life", "one">>, <<"shields", "shields", "opt">>, <<"armor", "bounds", "one">>,
                    <<"shieldArmor", "bounds", "one">>, <<"requires", "shortUnits", "def">>, <<"cost", "cost", "opt">>, <<"researches", "researches", "opt">>,
                    <<"movement", "movement", "opt">>, <<"score", "score", "one">>, <<"misc", "misc", "one">>, <<"producer", "short", "opt">>,
                    <<"attributes", "attributes", "def">>, <<"strengths", "shortUnits", "def">>, <<"weaknesses", "shortUnits", "def">>,
                    <<"weapons", "weapons", "def">>, <<"abilities", "abilities", "def">>, <<"builds", "units", "def">>, <<"trains", "units", "def">>,
                    <<"upgrades", "upgrades", "def">>>>],
  meta |-> [a |-> <<Must("name", "text"), Must("tooltip", "text"), Opt("icon", "text"), Opt("race", "text"), Opt("hotkey", "text"),
                    Opt("source", "text"), Opt("index", "u32"), Opt("type", "text")>>, c |-> <<>>],
  bounds |-> Bounds,
  life |-> [Bounds EXCEPT !.a = Append(@, Opt("regenRate", "f32"))],
  shields |-> [Bounds EXCEPT !.a = @ \o <<Must("regenRate", "f32"), Opt("delay", "f32")>>],
  short |-> [a |-> <<Must("id", "text"), Must("name", "text")>>, c |-> <<>>],
  shortUnits |-> Holder("unit", "short"),
  cost |-> [a |-> <<Opt("minerals", "u32"), Opt("vespene", "u32"), Opt("supply", "f32"), Opt("time", "f32"), Opt("energy", "u32"),
                    Opt("cooldown", "f32"), Opt("life", "u32")>>, c |-> <<>>],
  movement |-> [a |-> <<Must("type", "text"), Must("speed", "f32"), Must("acceleration", "f32"), Must("deceleration", "f32"), Opt("turnRate", "f32")>>, c |-> <<>>],
  score |-> [a |-> <<Opt("build", "u32"), Opt("kill", "u32")>>, c |-> <<>>],
  misc |-> [a |-> <<Opt("radius", "f32"), Opt("cargoSize", "u32"), Opt("footprint", "text"), Opt("sightRadius", "f32"), Opt("supply", "f32"),
                    Opt("range", "f32"), Opt("speed", "f32"), Opt("targets", "text"), Opt("count", "u32"), Opt("cargoCapacity", "u32")>>, c |-> <<>>],
  attributes |-> Holder("attribute", "attribute"),
  attribute |-> [a |-> <<Opt("type", "text")>>, c |-> <<>>],
  weapons |-> Holder("weapon", "weapon"),
  weapon |-> [a |-> <<Must("id", "text"), Must("index", "u32")>>, c |-> <<<<"meta", "meta", "one">>, <<"misc", "misc", "opt">>, <<"effect", "effect", "opt">>>>],
  effect |-> [a |-> <<Must("id", "text"), Must("index", "u32"), Must("radius", "f32"), Must("damage", "u32"), Must("max", "u32"), Must("death", "text"), Must("kind", "text")>>,
              c |-> <<<<"bonus", "bonus", "opt">>>>],
  bonus |-> [a |-> <<Must("damage", "u32"), Must("max", "u32"), Opt("type", "text")>>, c |-> <<>>],
  abilities |-> Holder("ability", "ability"),
  ability |-> [a |-> <<Must("id", "text"), Opt("index", "u16")>>, c |-> <<<<"command", "command", "many">>>>],
  command |-> [a |-> <<Opt("id", "text"), Must("index", "i64")>>, c |-> <<<<"meta", "meta", "one">>>>],
  units |-> Holder("unit", "unitRef"),
  unitRef |-> [a |-> <<Must("id", "text"), Opt("name", "text"), Opt("ability", "u16"), Opt("index", "i64")>>,
               c |-> <<<<"meta", "meta", "opt">>, <<"cost", "cost", "opt">>, <<"requires", "shortUnits", "def">>>>],
  researches |-> Holder("upgrade", "research"),
  research |-> [a |-> <<Must("id", "text"), Must("ability", "u16"), Must("index", "i64")>>, c |-> <<<<"meta", "meta", "one">>, <<"cost", "cost", "one">>>>],
  upgrades |-> Holder("upgrade", "upgrade"),
  upgrade |-> [a |-> <<Must("id", "text")>>, c |-> <<<<"level", "level", "many">>>>],
  level |-> [a |-> <<Def("id", "text"), Def("index", "u32")>>,
             c |-> <<<<"meta", "meta", "one">>, <<"requires", "requirement", "many">>, <<"cost", "cost", "one">>>>],
  requirement |-> [a |-> <<>>, c |-> <<<<"unit", "short", "many">>, <<"upgrade", "upgradeRef", "many">>>>],
  upgradeRef |-> [a |-> <<Def("id", "text"), Must("name", "text")>>, c |-> <<>>]])

(*--------------------------------- reading --------------------------------*)
Nothing == <<0>>
Wrong == <<9>>
IsWrong(v) == v[1] = 9
FieldOf(n) == "@" \o n
Scalar(t, s) == IF t = "text" THEN <<1, s>>
                ELSE IF t = "f32" THEN LET d == Decimal(s) IN IF d = <<>> THEN Wrong ELSE <<2, d[1]>>
                ELSE LET w == Whole(s) IN IF w = <<>> THEN Wrong ELSE IF InRange(t, w) THEN <<6, Canonical(w)>> ELSE Wrong
Given(el, n) == {i \in DOMAIN el.a : el.a[i][1] = n}
Attribute(el, d) == LET g == Given(el, d[1])
                    IN IF g # {} THEN Scalar(d[2], el.a[CHOOSE i \in g : TRUE][2])
                       ELSE CASE d[3] = "must" -> Wrong [] d[3] = "opt" -> Nothing [] OTHER -> IF d[2] = "text" THEN <<1, "">> ELSE <<6, "0">>
Children(el, n) == SelectSeq(el.c, LAMBDA x : x.n = n)
RECURSIVE Read(_, _)
Child(el, d) ==
  LET cs == Children(el, d[1])
      one == IF Len(cs) > 1 THEN Wrong ELSE Read(d[2], cs[1])
  IN CASE d[3] = "many" -> LET vs == TLCEval([i \in DOMAIN cs |-> Read(d[2], cs[i])])
                           IN IF \E i \in DOMAIN vs : IsWrong(vs[i]) THEN Wrong ELSE <<4, vs>>
       [] d[3] = "one" -> IF cs = <<>> THEN Wrong ELSE one
       [] d[3] = "opt" -> IF cs = <<>> THEN Nothing ELSE one
       [] OTHER -> IF cs = <<>> THEN Read(d[2], [n |-> d[1], a |-> <<>>, c |-> <<>>]) ELSE one
Read(r, el) ==
  LET s == Schema[r]
      as == TLCEval([i \in DOMAIN s.a |-> Attribute(el, s.a[i])])
      cs == TLCEval([i \in DOMAIN s.c |-> Child(el, s.c[i])])
  IN IF (\E i \in DOMAIN as : IsWrong(as[i])) \/ (\E i \in DOMAIN cs : IsWrong(cs[i])) THEN Wrong
     ELSE <<3, [f \in {FieldOf(s.a[i][1]) : i \in DOMAIN s.a} \cup {s.c[i][1] : i \in DOMAIN s.c} |->
                  IF \E i \in DOMAIN s.a : FieldOf(s.a[i][1]) = f THEN as[CHOOSE i \in DOMAIN s.a : FieldOf(s.a[i][1]) = f]
                  ELSE cs[CHOOSE i \in DOMAIN s.c : s.c[i][1] = f]]>>
ReadUnit(doc) == Read("unit", doc)
=============================================================================
