----------------------------- MODULE MapFilesMC -----------------------------
(***************************************************************************)
(* Files of a map, written by the rules of their formats and then damaged   *)
(* in one place or cut; every file is read step by step by MapFiles.        *)
(* What was written must be read again, every cut file and every file with  *)
(* a damaged magic number must fail.  Every file is printed.                *)
(***************************************************************************)
EXTENDS MapFiles, Json, IOUtils
Deep == IOEnv.DEEP = "1"

Byte(x, i) == (x \div (IF i = 0 THEN 1 ELSE IF i = 1 THEN 256 ELSE IF i = 2 THEN 65536 ELSE 16777216)) % 256
Le32(x) == [i \in 1..4 |-> Byte(x, i - 1)]        \* \div and % round downwards, so this is the two's complement
Le16(x) == SubSeq(Le32(x), 1, 2)
Fill(n, x) == [i \in 1..n |-> x]
EncInfo(v, pad) ==
  <<73, 112, 97, 77>> \o Le32(v.file_version) \o (IF v.file_version > 24 THEN Fill(8, 7) ELSE <<>>)
    \o Le32(v.cell_width) \o Le32(v.cell_height) \o Fill(8, 9) \o Fill(pad, 0)
    \o v.first_string \o <<0>> \o v.second_string \o <<0>> \o Fill(5, 0) \o v.third_string \o <<0>> \o v.fourth_string \o <<0>>
    \o Le32(v.cell_left) \o Le32(v.cell_bottom) \o Le32(v.cell_right) \o Le32(v.cell_top)
EncField(f) == Le16(Len(f[1])) \o f[1] \o <<83, 85, 110, 101>> \o Le16(Len(f[2])) \o f[2]
RECURSIVE EncFields(_)
EncFields(fs) == IF fs = <<>> THEN <<>> ELSE EncField(fs[1]) \o EncFields(SubSeq(fs, 2, Len(fs)))
EncDoc(v) == <<72, 50, 67, 83>> \o Fill(12, 8) \o Le32(v.x) \o Le32(v.y) \o Fill(4, 0) \o Le32(v.e) \o Le32(v.f) \o Fill(12, 1) \o Bytes(Void) \o <<0>>
               \o Le16(Len(v.fields)) \o <<0, 0>> \o EncFields(v.fields)
EncHeights(v) == <<72, 77, 65, 80, 101, 0, 0, 0>> \o Le32(v.w + 1) \o Le32(v.h + 1) \o Fill(16, 3)
                 \o [i \in 1..(6 * Len(v.d)) |-> IF i % 6 = 5 THEN v.d[(i \div 6) + 1] ELSE i % 256]

Strings == {<<>>, <<65>>, <<195, 164>>}
Bounds == {<<0, 2>>, <<1, 2>>, <<0, 1>>, <<-1, 2>>, <<2, 2>>, <<0, 3>>, <<1, 0>>}
Infos == {[k |-> "info", file_version |-> fv, cell_width |-> 2, cell_height |-> hh, first_string |-> <<4>>, second_string |-> s[1], third_string |-> s[2], fourth_string |-> s[3],
           cell_left |-> x[1], cell_bottom |-> y[1], cell_right |-> x[2], cell_top |-> y[2], pad |-> p] :
             fv \in (IF Deep THEN {23, 24, 25, -1} ELSE {24, 25}), hh \in {2, 256}, s \in (IF Deep THEN {<<a, b, c>> : a, b, c \in Strings} ELSE {<<<<>>, <<65>>, <<195, 164>>>>}),
             x \in Bounds, y \in Bounds, p \in {0, 2}}
Sizes == {[k |-> "info", file_version |-> 25, cell_width |-> w, cell_height |-> h, first_string |-> <<4>>, second_string |-> <<>>, third_string |-> <<68>>, fourth_string |-> <<90>>,
           cell_left |-> -1, cell_bottom |-> -2, cell_right |-> 0, cell_top |-> 0, pad |-> 1] : w, h \in {-100000, -1, 0, 1, 256, 257}}
FieldVals == {<<Bytes("DocInfo/Name"), <<65>>>>, <<Bytes("DocInfo/Name"), <<>>>>, <<Bytes("DocInfo/DescLong"), <<195, 164, 33>>>>, <<Bytes("DocInfo/DescShort"), <<66>>>>, <<Bytes("MapInfo/Player00/Name"), <<67>>>>, <<Bytes("x"), <<68>>>>}
Docs == {[k |-> "doc", x |-> x, y |-> -2, e |-> 3, f |-> 70000, fields |-> fs] : x \in {1, -5}, fs \in UNION {[1..m -> FieldVals] : m \in 0..2}}
Grids == {[k |-> "heights", w |-> w, h |-> h, d |-> d] : w \in {0, 1}, h \in {0, 1}, d \in UNION {[1..n -> {0, 2, 4, 5}] : n \in 1..4}}
Whole == {v \in Grids : Len(v.d) = (v.w + 1) * (v.h + 1)}
All == Infos \cup Sizes \cup Docs \cup Whole
Enc(v) == IF v.k = "info" THEN EncInfo(v, v.pad) ELSE IF v.k = "doc" THEN EncDoc(v) ELSE EncHeights(v)
(* What is wrong with the written values themselves. *)
Proper(v) == CASE v.k = "info" -> /\ v.cell_width \in 0..256 /\ v.cell_height \in 0..256 /\ v.cell_left < v.cell_right /\ v.cell_right <= v.cell_width
                                  /\ v.cell_bottom < v.cell_top /\ v.cell_top <= v.cell_height
               [] v.k = "doc" -> TRUE
               [] OTHER -> \A i \in DOMAIN v.d : v.d[i] <= 4

VARIABLES val, file, harm, phase, got
vars == <<val, file, harm, phase, got>>
Init == val \in All /\ file = <<>> /\ harm = <<"none", 0>> /\ phase = "write" /\ got = <<>>
Write == phase = "write" /\ file' = Enc(val) /\ phase' = "sent" /\ UNCHANGED <<val, harm, got>>
Small == Len(file) < (IF Deep THEN 200 ELSE 70)
Damage == /\ phase = "sent"
          /\ \/ \E n \in 0..(Len(file) - 1) : (Small \/ n % 7 = 0 \/ n > Len(file) - 6) /\ file' = SubSeq(file, 1, n) /\ harm' = <<"cut", n>>
             \/ \E n \in 1..4 : file' = [file EXCEPT ![n] = (@ + 1) % 256] /\ harm' = <<"magic", n>>
             \/ file' = file \o <<1, 0, 2>> /\ harm' = <<"more", 3>>
             \/ file' = file /\ harm' = <<"none", 0>>
          /\ (harm'[1] # "none" => Proper(val) \/ Deep) /\ phase' = "damaged" /\ UNCHANGED <<val, got>>
Cells(v) == IF v.k = "heights" THEN <<v.w, v.h>> ELSE <<0, 0>>
Dec(v, b) == IF v.k = "info" THEN Info(b) ELSE IF v.k = "doc" THEN Doc(b) ELSE Heights(b, v.w, v.h)
Read == phase = "damaged" /\ got' = Dec(val, file) /\ phase' = "read" /\ UNCHANGED <<val, file, harm>>
Next == Write \/ Damage \/ Read
Spec == Init /\ [][Next]_vars

LastOf(fs, name) == LET s == {i \in DOMAIN fs : fs[i][1] = name} IN IF s = {} THEN <<1>> ELSE <<1>> \o fs[CHOOSE i \in s : \A j \in s : j <= i][2]
Same(v, g) == CASE v.k = "info" -> /\ \A n \in {"file_version", "cell_width", "cell_height", "cell_left", "cell_bottom", "cell_right", "cell_top"} : g[n] = v[n]
                                   /\ \A n \in {"first_string", "second_string", "third_string", "fourth_string"} : g[n] = <<1>> \o v[n]
                [] v.k = "doc" -> /\ <<g.maybe_dimension_x1, g.maybe_dimension_y1, g.some_epoch_1, g.some_epoch_2>> = <<v.x, v.y, v.e, v.f>>
                                  /\ g.name = LastOf(v.fields, Bytes("DocInfo/Name")) /\ g.description_long = LastOf(v.fields, Bytes("DocInfo/DescLong"))
                                  /\ g.description_short = LastOf(v.fields, Bytes("DocInfo/DescShort")) /\ g.mod_info = VoidText
                [] OTHER -> g = [width |-> v.w + 1, height |-> v.h + 1, data |-> v.d]
Reads == phase = "read" => IF harm[1] \in {"cut", "magic"} \/ ~Proper(val) THEN ~got.ok
                           ELSE got.ok /\ Same(val, got.v) /\ got.at = Len(file) - harm[2]
Vector == phase = "damaged" => PrintT("@VEC " \o ToJson([k |-> val.k, b |-> file, w |-> Cells(val)[1], h |-> Cells(val)[2]]))
=============================================================================
