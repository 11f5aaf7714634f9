---------------------------- MODULE MapCoordsTrace ----------------------------
(***************************************************************************)
(* Conversions done by the implementation.  Every case is one map point p     *)
(* (4096ths), one pair of whole numbers w, and the lower left corner e of a    *)
(* playable area.                                                           *)
(***************************************************************************)
EXTENDS MapCoords, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> <<"C27">>, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE
Same(what, e, o) == IF e = o THEN TRUE ELSE Bad(what, e, o)
Both(F(_), v) == <<F(v[1]), F(v[2])>>
Real(k) == DyNorm(k, -12)
CentreOf(c) == Real(Centre(c))
PositionOf(t) == Real(Position(t))
ReCell(c) == CellAt(Centre(c))
(* conversions of negative positions are outside of every map *)
OnMap == Cur.p[1] >= 0 /\ Cur.p[2] >= 0
WholeOnMap == Cur.w[1] >= 0 /\ Cur.w[2] >= 0
Judge ==
  IF Cur.k = "panic" THEN Bad("panic", "coordinates", Cur.m)
  ELSE /\ (IF OnMap THEN Same("cell", Both(CellAt, Cur.p), Cur.cell) ELSE TRUE)
       /\ (IF OnMap THEN Same("terrain point", Both(PointAt, Cur.p), Cur.point) ELSE TRUE)
       /\ Same("centre of a cell", Both(CentreOf, Cur.w), Cur.centre)
       /\ Same("position of a terrain point", Both(PositionOf, Cur.w), Cur.position)
       /\ (IF WholeOnMap THEN Same("cell of the centre of a cell", Cur.w, Cur.recell) ELSE TRUE)
       /\ (IF WholeOnMap THEN Same("terrain point of its position", Cur.w, Cur.repoint) ELSE TRUE)
       /\ Same("playable terrain point", <<InPlayable(Cur.w[1], Cur.e[1]), InPlayable(Cur.w[2], Cur.e[2])>>, Cur.playable)
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
