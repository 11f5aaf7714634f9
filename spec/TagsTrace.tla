------------------------------ MODULE TagsTrace ------------------------------
(***************************************************************************)
(* Tags that the implementation packed, and what it unpacked from the tags  *)
(* of the specification.  A line has one index and a stretch of recycle     *)
(* counts, or the other way round.                                          *)
(***************************************************************************)
EXTENDS Tags, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Index(k) == IF Cur.by = "recycle" THEN Cur.index ELSE Cur.from + (k - 1) * Cur.step
Recycle(k) == IF Cur.by = "recycle" THEN Cur.from + (k - 1) * Cur.step ELSE Cur.recycle
Wrong == {k \in DOMAIN Cur.tags : Cur.tags[k] # Pack(Index(k), Recycle(k)) \/ Cur.indexes[k] # Index(k) \/ Cur.recycles[k] # Recycle(k)}
Judge == IF Wrong = {} THEN TRUE
         ELSE LET k == CHOOSE k \in Wrong : TRUE
              IN PrintT("@BAD " \o ToJson([case |-> caseNo, index |-> Index(k), recycle |-> Recycle(k), expected |-> Pack(Index(k), Recycle(k)),
                                           tag |-> Cur.tags[k], unpacked |-> <<Cur.indexes[k], Cur.recycles[k]>>]))
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ Judge
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
