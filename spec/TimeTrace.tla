------------------------------ MODULE TimeTrace ------------------------------
(***************************************************************************)
(* Recorded conversions of dates and loops against TimeOps.                 *)
(***************************************************************************)
EXTENDS TimeOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]

(*---------------------------------- cases ---------------------------------*)
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.k, props |-> <<"C22">>, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE
JudgeDate ==
  LET us == Micros(Cur.utc, Cur.off) t == DateText(us)
  IN IF Cur.got.f # t THEN Bad("date", t, Cur.got.f)
     ELSE IF Cur.got.d # t THEN Bad("date of the details", t, Cur.got.d)
     ELSE IF ~Cur.got.kept THEN Bad("other fields of the details", TRUE, FALSE) ELSE TRUE
JudgeRange ==
  LET rs == Cur.got.runs bad == {i \in DOMAIN rs : ~RunOk(rs[i])} down == {i \in 2..Len(rs) : ~NumLess(rs[i - 1][3], rs[i][3])}
  IN IF bad # {} THEN Bad("seconds", "single precision", [i \in {CHOOSE i \in bad : TRUE} |-> rs[i]])
     ELSE IF down # {} THEN Bad("seconds decrease", "monotone", [i \in {CHOOSE i \in down : TRUE} |-> <<rs[i - 1], rs[i]>>])
     ELSE IF ~IsNothing(Cur.got.differ) THEN Bad("tracker and game loops differ", "the same", Cur.got.differ) ELSE TRUE
Judge == IF Cur.got.k = "panic" THEN Bad("panic", "a value", Cur.got.m) ELSE IF Cur.k = "date" THEN JudgeDate ELSE JudgeRange
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
