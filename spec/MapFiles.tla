------------------------------ MODULE MapFiles ------------------------------
(***************************************************************************)
(* The files of a map archive: map information, document header and         *)
(* terrain heights.  Each is read by a cursor that moves over the bytes     *)
(* step by step; a step fails where the bytes it needs are missing.         *)
(*                                                                         *)
(* A reading is [ok, at, v]: whether all steps so far succeeded, how many   *)
(* bytes are consumed, and the fields found.                                *)
(***************************************************************************)
EXTENDS Prelude, SequencesExt

Left(b, r) == Len(b) - r.at
Start == [ok |-> TRUE, at |-> 0, v |-> <<>>]
Fail(r) == [r EXCEPT !.ok = FALSE]
Put(r, n, k, x) == [ok |-> r.ok, at |-> r.at + n, v |-> TLCEval(With(r.v, k, x))]
Move(r, n) == [r EXCEPT !.at = @ + n]
Sub(b, from, n) == SubSeq(b, from + 1, from + n)

I32(b, at) == LET t == b[at + 4] IN (IF t > 127 THEN t - 256 ELSE t) * 16777216 + b[at + 3] * 65536 + b[at + 2] * 256 + b[at + 1]
U16(b, at) == b[at + 2] * 256 + b[at + 1]

(*---------------------------------- text ----------------------------------*)
(* Bytes that are no UTF-8 are shown as U+FFFD, one for each longest beginning of a character. *)
Low(h) == IF h = 224 THEN 160 ELSE IF h = 240 THEN 144 ELSE 128
High(h) == IF h = 237 THEN 159 ELSE IF h = 244 THEN 143 ELSE 191
Needs(h) == IF h < 128 THEN 1 ELSE IF h >= 194 /\ h <= 223 THEN 2 ELSE IF h >= 224 /\ h <= 239 THEN 3 ELSE IF h >= 240 /\ h <= 244 THEN 4 ELSE 0
Lost == <<239, 191, 189>>
Begin(out, x) == LET n == Needs(x) IN
  IF n = 1 THEN [part |-> <<>>, need |-> 0, lo |-> 0, hi |-> 0, out |-> Append(out, x)]
  ELSE IF n = 0 THEN [part |-> <<>>, need |-> 0, lo |-> 0, hi |-> 0, out |-> out \o Lost]
  ELSE [part |-> <<x>>, need |-> n, lo |-> Low(x), hi |-> High(x), out |-> out]
Decode(d, x) ==
  IF d.part = <<>> THEN Begin(d.out, x)
  ELSE IF x < d.lo \/ x > d.hi THEN Begin(d.out \o Lost, x)
  ELSE IF Len(d.part) + 1 = d.need THEN [part |-> <<>>, need |-> 0, lo |-> 0, hi |-> 0, out |-> d.out \o Append(d.part, x)]
  ELSE [d EXCEPT !.part = Append(@, x), !.lo = 128, !.hi = 191]
Lossy(b) == LET d == FoldLeft(Decode, [part |-> <<>>, need |-> 0, lo |-> 0, hi |-> 0, out |-> <<>>], b) IN IF d.part = <<>> THEN d.out ELSE d.out \o Lost
Text(b) == TLCEval(<<1>> \o (IF \A i \in DOMAIN b : b[i] < 128 THEN b ELSE Lossy(b)))

(*---------------------------------- steps ---------------------------------*)
Magic(b, r, m) == IF r.ok /\ Left(b, r) >= Len(m) /\ Sub(b, r.at, Len(m)) = m THEN Move(r, Len(m)) ELSE Fail(r)
Skip(b, r, n) == IF r.ok /\ Left(b, r) >= n THEN Move(r, n) ELSE Fail(r)
Num32(b, r, k) == IF r.ok /\ Left(b, r) >= 4 THEN Put(r, 4, k, I32(b, r.at)) ELSE Fail(r)
Count(b, r, k) == IF r.ok /\ Left(b, r) >= 2 THEN Put(r, 2, k, U16(b, r.at)) ELSE Fail(r)
RECURSIVE ZerosAt(_, _)
ZerosAt(b, at) == IF at < Len(b) /\ b[at + 1] = 0 THEN 1 + ZerosAt(b, at + 1) ELSE 0
Zeros(b, r) == IF r.ok THEN Move(r, ZerosAt(b, r.at)) ELSE r
RECURSIVE OthersAt(_, _)
OthersAt(b, at) == IF at < Len(b) /\ b[at + 1] # 0 THEN 1 + OthersAt(b, at + 1) ELSE 0
(* up to and with a zero byte *)
Str(b, r, k) == IF ~r.ok THEN r
                ELSE LET n == OthersAt(b, r.at) IN IF r.at + n = Len(b) THEN Fail(r) ELSE Put(r, n + 1, k, Text(Sub(b, r.at, n)))
(* a length and as many bytes *)
Counted(b, r, k) == LET c == Count(b, r, "n") IN IF c.ok /\ Left(b, c) >= c.v.n THEN Put(c, c.v.n, k, Text(Sub(b, c.at, c.v.n))) ELSE Fail(c)
Must(r, c) == IF r.ok /\ ~c THEN Fail(r) ELSE r
Result(r, fields) == IF r.ok THEN [ok |-> TRUE, at |-> r.at, v |-> [k \in fields |-> r.v[k]]] ELSE [ok |-> FALSE, at |-> 0, v |-> <<>>]

(*----------------------------- map information ----------------------------*)
MaxCells == 256
InfoFields == {"file_version", "cell_width", "cell_height", "first_string", "second_string", "third_string", "fourth_string",
               "cell_left", "cell_bottom", "cell_right", "cell_top"}
Info(b) ==
  LET v == Num32(b, Magic(b, Start, <<73, 112, 97, 77>>), "file_version")        \* IpaM
      s == IF v.ok /\ v.v.file_version > 24 THEN Skip(b, v, 8) ELSE v
      w == Num32(b, s, "cell_width")
      h == Num32(b, w, "cell_height")
      size == Must(h, h.ok => (h.v.cell_width \in 0..MaxCells /\ h.v.cell_height \in 0..MaxCells))
      t == Zeros(b, Skip(b, size, 8))
      a2 == Str(b, Str(b, t, "first_string"), "second_string")
      a4 == Str(b, Str(b, Skip(b, a2, 5), "third_string"), "fourth_string")
      c == Num32(b, Num32(b, Num32(b, Num32(b, a4, "cell_left"), "cell_bottom"), "cell_right"), "cell_top")
      f == Must(c, c.ok => /\ c.v.cell_left < c.v.cell_right /\ c.v.cell_right <= c.v.cell_width
                           /\ c.v.cell_bottom < c.v.cell_top /\ c.v.cell_top <= c.v.cell_height)
  IN Result(f, InfoFields)

(* Terrain points lie around cells, so there is one more of them in each direction. *)
Derived(v) == [cell_dim_map |-> <<v.cell_width, v.cell_height>>, terrain_dim_map |-> <<v.cell_width + 1, v.cell_height + 1>>,
               cell_left_bottom |-> <<v.cell_left, v.cell_bottom>>, cell_right_top |-> <<v.cell_right, v.cell_top>>,
               terrain_left_bottom |-> <<v.cell_left, v.cell_bottom>>]
(* The playable area, where its size is a number of the language. *)
Playable(v) == [cell_dim_playable |-> <<v.cell_right - v.cell_left, v.cell_top - v.cell_bottom>>,
                terrain_dim_playable |-> <<v.cell_right - v.cell_left + 1, v.cell_top - v.cell_bottom + 1>>]

(*----------------------------- document header ----------------------------*)
Void == "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod"
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> 31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]
Bytes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
VoidText == TLCEval(<<1>> \o Bytes(Void))
DocFields == {"maybe_dimension_x1", "maybe_dimension_y1", "some_epoch_1", "some_epoch_2", "mod_info", "name", "description_long", "description_short"}
FieldName == TLCEval([name |-> <<1>> \o Bytes("DocInfo/Name"), description_long |-> <<1>> \o Bytes("DocInfo/DescLong"), description_short |-> <<1>> \o Bytes("DocInfo/DescShort")])
DocField(b, r) ==
  LET k == Magic(b, Counted(b, r, "key"), <<83, 85, 110, 101>>)                \* SUne
      x == Counted(b, k, "value")
  IN IF ~x.ok THEN x
     ELSE LET hit == {f \in DOMAIN FieldName : FieldName[f] = x.v.key}
          IN IF hit = {} THEN x ELSE Put(x, 0, CHOOSE f \in hit : TRUE, x.v.value)
RECURSIVE DocList(_, _, _)
DocList(b, r, n) == IF n = 0 \/ ~r.ok THEN r ELSE LET x == TLCEval(DocField(b, r)) IN DocList(b, x, n - 1)
Doc(b) ==
  LET m == Skip(b, Magic(b, Start, <<72, 50, 67, 83>>), 12)                    \* H2CS
      y == Num32(b, Num32(b, m, "maybe_dimension_x1"), "maybe_dimension_y1")
      e == Num32(b, Num32(b, Skip(b, y, 4), "some_epoch_1"), "some_epoch_2")
      i == Str(b, Skip(b, e, 12), "mod_info")
      n == Magic(b, Count(b, Must(i, i.ok => i.v.mod_info = VoidText), "fields"), <<0, 0>>)
      empty == IF n.ok THEN Put(Put(Put(n, 0, "name", <<1>>), 0, "description_long", <<1>>), 0, "description_short", <<1>>) ELSE n
  IN Result(IF n.ok THEN DocList(b, empty, n.v.fields) ELSE n, DocFields)

(*----------------------------- terrain heights ----------------------------*)
MaxHeight == 4
(* w and h are the numbers of cells of the map *)
Heights(b, w, h) ==
  LET s == Num32(b, Num32(b, Magic(b, Start, <<72, 77, 65, 80, 101, 0, 0, 0>>), "width"), "height")      \* HMAP, version
      d == Skip(b, Must(s, s.ok => (s.v.width = w + 1 /\ s.v.height = h + 1)), 16)
      n == (w + 1) * (h + 1)
      f == Must(d, d.ok => (Left(b, d) >= 6 * n /\ \A i \in 1..n : b[d.at + 6 * i - 1] <= MaxHeight))
  IN IF f.ok THEN [ok |-> TRUE, at |-> f.at + 6 * n, v |-> [width |-> w + 1, height |-> h + 1, data |-> [i \in 1..n |-> b[f.at + 6 * i - 1]]]]
     ELSE Result(f, {})
=============================================================================
