---------------------------- MODULE MapFilesTrace ----------------------------
(***************************************************************************)
(* Recorded readings of map files against MapFiles.                         *)
(***************************************************************************)
EXTENDS MapFiles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> <<"C24">>, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE
Expected == IF Cur.k = "info" THEN Info(Cur.b) ELSE IF Cur.k = "doc" THEN Doc(Cur.b) ELSE Heights(Cur.b, Cur.w, Cur.h)
Magnitude(x) == IF x < 0 THEN -(x + 1) ELSE x
Calculable(v) == \A n \in {"cell_left", "cell_bottom"} : Magnitude(v[n]) < 1000000000
Agrees(where, e, g) ==
  IF g.k # (IF e.ok THEN "ok" ELSE "err") THEN Bad(where \o ": result", IF e.ok THEN "ok" ELSE "err", g.k)
  ELSE IF ~e.ok THEN TRUE
  ELSE IF g.v # e.v THEN LET d == {n \in DOMAIN e.v : g.v[n] # e.v[n]}
                           IN IF Len(Cur.b) < 400 THEN Bad(where \o ": fields", [n \in d |-> e.v[n]], [n \in d |-> g.v[n]]) ELSE Bad(where \o ": fields", d, "other values")
  ELSE IF g.at # <<>> /\ g.at # <<e.at>> THEN Bad(where \o ": bytes consumed", e.at, g.at)
  ELSE IF Cur.k # "info" THEN TRUE
  ELSE IF g.d.always # Derived(e.v) THEN Bad(where \o ": sizes", Derived(e.v), g.d.always)
  ELSE IF Calculable(e.v) THEN (IF g.d.playable # Playable(e.v) THEN Bad(where \o ": playable size", Playable(e.v), g.d.playable) ELSE TRUE)
  ELSE TRUE
Judge == LET e == Expected
         IN IF ~Agrees("file", e, Cur.got) THEN FALSE ELSE IF Len(Cur.packed) = 0 THEN TRUE ELSE Agrees("in an archive", e, Cur.packed[1])
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
