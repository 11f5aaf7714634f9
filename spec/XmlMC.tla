-------------------------------- MODULE XmlMC --------------------------------
(***************************************************************************)
(* Unit documents and everything a few edits can make of them: attributes    *)
(* and elements added, left out, unknown, in another order, with other or    *)
(* unreadable texts.  What each edit may do to what is read is checked; every *)
(* document is printed and read by the implementation.                      *)
(***************************************************************************)
EXTENDS XmlUnits, SequencesExt, Json, IOUtils

Rich == IOEnv.START = "full"
Depth == IF IOEnv.DEPTH = "2" THEN 2 ELSE 1
Sample == [text |-> "t", u16 |-> "65535", u32 |-> "7", i64 |-> "-1", f32 |-> "2.9531"]
Texts == [text |-> {"", "7", "a b"}, u16 |-> {"0", "65536", "-1", "x", ""}, u32 |-> {"0", "4294967295", "4294967296", "-1", "1.5", "x"},
          i64 |-> {"0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "y"}, f32 |-> {"0", "-1", "0.33", "999.8437", "16777.25", "z"}]
Element(n, a, c) == [n |-> n, a |-> a, c |-> c]
AttrsOf(ds) == [i \in DOMAIN ds |-> <<ds[i][1], Sample[ds[i][2]]>>]
RECURSIVE Minimal(_, _)
Minimal(n, r) == LET s == Schema[r] ones == SelectSeq(s.c, LAMBDA d : d[3] = "one")
                 IN Element(n, AttrsOf(SelectSeq(s.a, LAMBDA d : d[3] = "must")), [i \in DOMAIN ones |-> Minimal(ones[i][1], ones[i][2])])
(* weapon effects: see the known finding *)
Shown(cs) == SelectSeq(cs, LAMBDA d : d[1] # "effect")
RECURSIVE Full(_, _)
Full(n, r) == LET s == Schema[r]
              IN Element(n, AttrsOf(s.a), FlattenSeq([i \in DOMAIN Shown(s.c) |->
                   LET d == Shown(s.c)[i] IN IF d[3] = "many" THEN <<Full(d[1], d[2]), Minimal(d[1], d[2])>> ELSE <<Full(d[1], d[2])>>]))

VARIABLES doc, edits, last
vars == <<doc, edits, last>>
Init == /\ doc = (IF Rich THEN Full("unit", "unit") ELSE Minimal("unit", "unit")) /\ edits = 0 /\ last = "none"

RECURSIVE Nodes(_, _)     \* <<path, record>> of all known elements
KnownChild(r, n) == {i \in DOMAIN Schema[r].c : Schema[r].c[i][1] = n}
Nodes(el, r) == {<<<<>>, r>>} \cup UNION {LET k == KnownChild(r, el.c[i].n) IN
                    IF k = {} THEN {} ELSE {<<<<i>> \o q[1], q[2]>> : q \in Nodes(el.c[i], Schema[r].c[CHOOSE x \in k : TRUE][2])} : i \in DOMAIN el.c}
RECURSIVE At(_, _)
At(el, p) == IF p = <<>> THEN el ELSE At(el.c[p[1]], Tail(p))
RECURSIVE Put(_, _, _)
Put(el, p, x) == IF p = <<>> THEN x ELSE [el EXCEPT !.c = [@ EXCEPT ![p[1]] = Put(el.c[p[1]], Tail(p), x)]]
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Has(el, n) == Given(el, n) # {}
LastOf(el, n) == LET I == {i \in DOMAIN el.c : el.c[i].n = n} IN IF I = {} THEN Len(el.c) ELSE CHOOSE i \in I : \A j \in I : j <= i
AddAfter(el, i, x) == [el EXCEPT !.c = SubSeq(@, 1, i) \o <<x>> \o SubSeq(@, i + 1, Len(@))]
TypeOf(r, n) == LET I == {i \in DOMAIN Schema[r].a : Schema[r].a[i][1] = n} IN Schema[r].a[CHOOSE i \in I : TRUE][2]
(* <<kind, new element>> *)
Edits(el, r) ==
  LET s == Schema[r]
      known == {i \in DOMAIN el.a : \E j \in DOMAIN s.a : s.a[j][1] = el.a[i][1]}
  IN {<<IF \E j \in DOMAIN s.a : s.a[j][1] = el.a[i][1] /\ s.a[j][3] = "must" THEN "must" ELSE "less", [el EXCEPT !.a = RemoveIdx(@, i)]>> : i \in known}
     \cup {<<"add", [el EXCEPT !.a = Append(@, <<s.a[j][1], Sample[s.a[j][2]]>>)]>> : j \in {j \in DOMAIN s.a : ~Has(el, s.a[j][1])}}
     \cup UNION {{<<"text", [el EXCEPT !.a = [@ EXCEPT ![i] = <<@[1], t>>]]>> : t \in Texts[TypeOf(r, el.a[i][1])]} : i \in known}
     \cup {<<"less", [el EXCEPT !.c = RemoveIdx(@, i)]>> : i \in DOMAIN el.c}
     \cup {<<IF s.c[j][3] = "def" THEN "same" ELSE "add", AddAfter(el, LastOf(el, s.c[j][1]), Minimal(s.c[j][1], s.c[j][2]))>> :
             j \in {j \in DOMAIN s.c : s.c[j][1] # "effect" /\ (s.c[j][3] = "many" \/ Children(el, s.c[j][1]) = <<>>)}}
     \cup (IF Has(el, "unheardOf") THEN {} ELSE {<<"same", [el EXCEPT !.a = <<<<"unheardOf", "1">>>> \o @]>>})
     \cup {<<"same", AddAfter(el, 0, Element("unheardOf", <<<<"id", "1">>>>, <<>>))>>,
           <<"same", [el EXCEPT !.a = Reverse(@)]>>}
     \cup (IF el.c = <<>> THEN {} ELSE
             {<<"same", [el EXCEPT !.c = SelectSeq(@, LAMBDA x : x.n # el.c[1].n) \o SelectSeq(@, LAMBDA x : x.n = el.c[1].n)]>>})
Edit == /\ edits < Depth
        /\ \E q \in Nodes(doc, "unit") : \E x \in Edits(At(doc, q[1]), q[2]) :
             doc' = Put(doc, q[1], x[2]) /\ last' = x[1] /\ edits' = edits + 1
Next == Edit
Spec == Init /\ [][Next]_vars

Result == ReadUnit(doc)
(* Order, unknown and empty parts do not matter; an added known part shows; without a required attribute nothing is read. *)
Effects == [][LET a == TLCEval(ReadUnit(doc)) b == TLCEval(ReadUnit(doc')) IN
              CASE last' = "same" -> b = a
                [] last' = "add" -> IsWrong(a) \/ b # a
                [] last' = "must" -> IsWrong(b)
                [] OTHER -> TRUE]_vars
Starts == edits = 0 => ~IsWrong(Result)
Vector == (edits = 0 => PrintT("@SCHEMA " \o ToJson(Schema))) /\ PrintT("@VEC " \o ToJson(doc))
=============================================================================
