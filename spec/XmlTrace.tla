------------------------------- MODULE XmlTrace -------------------------------
(***************************************************************************)
(* Directories of exported balance data, and what was read from them.  One   *)
(* case per line: files [dir, sub, name, doc], doc is <<>> when the file is   *)
(* no readable document; read and again (written as JSON and read again) are  *)
(* sequences of <<version, unit id, value>>.                               *)
(***************************************************************************)
EXTENDS XmlUnits, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> <<"C28">>, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE

EndsIn(s, x) == Len(s) > Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Build(d) == LET w == Whole(d) IN IF w = <<>> \/ SubSeq(d, 1, 1) = "-" THEN <<>> ELSE IF InRange("u32", w) THEN <<Canonical(w)>> ELSE <<>>
IsUnitFile(f) == Build(f.dir) # <<>> /\ f.sub = "BalanceData" /\ EndsIn(f.name, ".xml") /\ f.doc # <<>>
(* <<version, id, value>> of every readable unit file *)
All == {LET f == Cur.files[i] v == Read("unit", f.doc[1]) IN <<Build(f.dir)[1], v>> : i \in {j \in DOMAIN Cur.files : IsUnitFile(Cur.files[j])}}
Good == {x \in All : ~IsWrong(x[2])}
IdOf(v) == v[2]["@id"][2]
Units(good) == {<<x[1], IdOf(x[2]), x[2]>> : x \in good}
Keys(us) == {<<u[1], u[2]>> : u \in us}
Clip(s) == IF Cardinality(s) > 5 THEN {CHOOSE x \in s : TRUE} ELSE s
RECURSIVE Differs(_, _)     \* where two records differ
Differs(a, b) ==
  IF a = b THEN <<>>
  ELSE IF a[1] = 3 /\ b[1] = 3 THEN
    IF DOMAIN a[2] # DOMAIN b[2] THEN <<"fields", (DOMAIN a[2] \ DOMAIN b[2]) \cup (DOMAIN b[2] \ DOMAIN a[2])>>
    ELSE LET f == CHOOSE f \in DOMAIN a[2] : a[2][f] # b[2][f] IN <<f, Differs(a[2][f], b[2][f])>>
  ELSE IF a[1] = 4 /\ b[1] = 4 THEN
    IF Len(a[2]) # Len(b[2]) THEN <<"entries", Len(a[2]), Len(b[2])>>
    ELSE LET i == CHOOSE i \in DOMAIN a[2] : a[2][i] # b[2][i] IN <<i, Differs(a[2][i], b[2][i])>>
  ELSE <<a, b>>
Compare(us, seen, what) ==
  LET got == {<<seen[i][1], seen[i][2], seen[i][3]>> : i \in DOMAIN seen}
  IN /\ IF Keys(us) \subseteq Keys(got) THEN TRUE ELSE Bad(what \o ": missing units", Clip(Keys(us) \ Keys(got)), Cardinality(Keys(got)))
     /\ IF Keys(got) \subseteq Keys(us) THEN TRUE ELSE Bad(what \o ": other units", Cardinality(Keys(us)), Clip(Keys(got) \ Keys(us)))
     /\ \A g \in got : LET own == {u \in us : u[1] = g[1] /\ u[2] = g[2]} IN
          IF own = {} \/ g \in own THEN TRUE
          ELSE Bad((IF Cur.id = "weapon effects" THEN "weapon effects: " ELSE "") \o what \o ": unit", g[1] \o "/" \o g[2], [path |-> Differs((CHOOSE u \in own : TRUE)[3], g[3])])
Judge == CASE Cur.k = "panic" -> Bad("panic", "units", Cur.m)
           [] Cur.k = "err" -> Bad("error", "units", Cur.m)
           [] OTHER -> LET us == TLCEval(Units(TLCEval(Good))) IN
                /\ Compare(us, Cur.read, "read from XML")
                /\ (IF ~Cur.written THEN TRUE ELSE Compare({<<r[1], r[2], r[3]>> : r \in {Cur.read[i] : i \in DOMAIN Cur.read}}, Cur.again, "written as JSON and read"))
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
