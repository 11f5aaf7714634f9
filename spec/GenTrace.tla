------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Judges what generated readers delivered: a line holds a description, and *)
(* the results of the readers generated from it for given bytes, starting   *)
(* at a given bit.                                                          *)
(***************************************************************************)
EXTENDS Generator, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Bad(what, item, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> <<"C25">>, item |-> item, what |-> what,
                                                    why |-> ToString([expected |-> e, observed |-> o])]))
Expected(ds, S, c) ==
  LET d == DeclOf(ds, c.full)
      r == Dec(S, R(d.rust), c.bs, c.s)
  IN IF IsOk(r) THEN [k |-> "ok", p |-> r.p, v |-> ShownDecl(ds, c.bits = 1, d, r.v)] ELSE r
Fine(e, o) == IF e.k = "dontcare" THEN o.k # "panic"
              ELSE IF e.k = "ok" /\ o.k = "ok" THEN e.p = o.p /\ e.v = o.v ELSE e.k = o.k
JudgeRead ==
  LET ds == Cur.ds
      A == Layout(ds, FALSE)
      B == Layout(ds, TRUE)
      E == [i \in DOMAIN Cur.cases |-> Expected(ds, IF Cur.cases[i].bits = 1 THEN B ELSE A, Cur.cases[i])]
      wrong == {i \in DOMAIN Cur.cases : ~Fine(E[i], Cur.cases[i].got)}
  IN IF wrong = {} THEN TRUE
     ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
          IN Bad((IF Cur.cases[i].bits = 1 THEN "bit-packed " ELSE "byte-aligned ") \o Cur.cases[i].full, i, E[i], Cur.cases[i].got)
(* Every selected type is declared and has a reader. *)
JudgeDeclared ==
  LET want == {<<0, Cur.ds[i].rust>> : i \in {j \in DOMAIN Cur.ds : InBytes(Cur.ds[j])}} \cup {<<1, Cur.ds[i].rust>> : i \in {j \in DOMAIN Cur.ds : InBits(Cur.ds[j])}}
      have == Range(Cur.types)
  IN IF want \subseteq have THEN TRUE ELSE Bad("types without a reader", 0, want \ have, "not declared")
Judge ==
  CASE Cur.k = "read" -> JudgeRead
    [] Cur.k = "declared" -> JudgeDeclared
    [] OTHER -> Bad("generating", 0, "source", Cur.m)
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
