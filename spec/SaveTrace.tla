------------------------------ MODULE SaveTrace ------------------------------
(***************************************************************************)
(* Runs of the event iterator that were saved as JSON and restored between   *)
(* calls, against the run that was not: the same items, the same state at    *)
(* the end; and values that went through JSON against the originals.  An     *)
(* item or a part of the state is the digest of its complete contents.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES caseNo, runNo
Cur == Trace[caseNo]
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> <<"C26">>, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE
Same(what, e, o) == IF e = o THEN TRUE ELSE Bad(what, e, o)
FirstDiff(a, b) == IF \E i \in DOMAIN a \cap DOMAIN b : a[i] # b[i] THEN CHOOSE i \in DOMAIN a \cap DOMAIN b : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j] ELSE 1 + (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b))
SameItems(what, a, b) == IF a = b THEN TRUE ELSE Bad(what, [items |-> Len(a)], [items |-> Len(b), first_difference |-> FirstDiff(a, b)])
Ok(r) == IF r.k = "ok" THEN TRUE ELSE Bad("run", "items", r.m)
Parts == {"units", "users", "balance", "lobby", "details"}
Values == \A i \in DOMAIN Cur.values : Same(Cur.values[i][1], Cur.values[i][2], Cur.values[i][3])
Whole == Ok(Cur.got) /\ SameItems("single items", Cur.got.items, Cur.got.kept)
Run(r) == IF Ok(r.r)
          THEN /\ SameItems("saved at " \o ToString(r.at) \o ": items", Cur.got.items, r.r.items)
               /\ \A p \in Parts : Same("saved at " \o ToString(r.at) \o ": state at the end: " \o p, Cur.got.end[p], r.r.end[p])
          ELSE FALSE
Init == caseNo = 1 /\ runNo = 0
Next ==
  /\ caseNo <= Len(Trace)
  /\ IF Cur.got.k # "err" /\ runNo <= Len(Cur.runs)
     THEN /\ (IF (IF runNo = 0 THEN Values /\ Whole ELSE Cur.got.k = "ok" /\ Run(Cur.runs[runNo])) THEN TRUE ELSE TRUE)
          /\ runNo' = runNo + 1 /\ caseNo' = caseNo
     ELSE caseNo' = caseNo + 1 /\ runNo' = 0
Spec == Init /\ [][Next]_<<caseNo, runNo>>
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
