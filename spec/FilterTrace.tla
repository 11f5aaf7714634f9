------------------------------ MODULE FilterTrace ------------------------------
(***************************************************************************)
(* A filtered run of the event iterator against the unfiltered run of the   *)
(* same replay: the items of the filtered run are exactly those items of    *)
(* the unfiltered one that pass, the first ones up to the maximum.  Items   *)
(* of a run are compared as wholes (contents and change hint).             *)
(***************************************************************************)
EXTENDS Lib, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES caseNo, runNo
vars == <<caseNo, runNo>>
Cur == Trace[caseNo]

Kind(i) == CHOOSE k \in DOMAIN Fs(i.e) : TRUE
Body(i) == Fs(Fs(i.e)[Kind(i)])
Given(v) == ~IsNothing(v)
InLoops(f, i) == /\ (Given(f.min_loop) => ~NumLess(i.l, f.min_loop))
                 /\ (Given(f.max_loop) => ~NumLess(f.max_loop, i.l))
(* A player may be chosen by name: by the working set slot of the player of that name, if there is one. *)
Named(f) == {i \in DOMAIN Cur.slots : Cur.slots[i][1] = f.name}
Chosen(f) == IF "name" \notin DOMAIN f \/ Named(f) = {} THEN f.player_id ELSE Cur.slots[CHOOSE i \in Named(f) : TRUE][2]
OfPlayer(f, i) ==
  LET player == Chosen(f) IN
  Given(player) =>
    IF i.t = "G" THEN i.u = player
    ELSE CASE Kind(i) \in {"PlayerStats", "Upgrade", "PlayerSetup"} -> Body(i).player_id = player
           [] Kind(i) \in {"UnitBorn", "UnitInit", "UnitOwnerChange"} -> Body(i).control_player_id = player
           [] Kind(i) = "UnitDied" -> Body(i).killer_player_id = player
           [] OTHER -> TRUE
OfUnit(f, i) == Given(f.unit_name) /\ i.t = "T" /\ Kind(i) \in {"UnitBorn", "UnitInit", "UnitTypeChange"} => Body(i).unit_type_name = f.unit_name
WithStats(f, i) == i.t = "T" /\ Kind(i) = "PlayerStats" => f.include_stats = <<2, 1>>
Passes(f, i) == InLoops(f, i) /\ OfPlayer(f, i) /\ OfUnit(f, i) /\ WithStats(f, i)

Whole(i) == i.x
Passing(f, s) == LET p == SelectSeq(s, LAMBDA i : Passes(f, i)) IN [k \in DOMAIN p |-> Whole(p[k])]
First(n, s) == IF n < 0 \/ n > Len(s) THEN s ELSE SubSeq(s, 1, n)
Expected(f) == First(f.max, Passing(f, Cur.got.v))
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, run |-> runNo, props |-> <<"C11">>, what |-> what, item |-> 0,
                                             why |-> ToString([filters |-> IF runNo <= Len(Cur.runs) THEN Cur.runs[runNo].f ELSE {}, expected |-> e, observed |-> o])]))
(* the first place where two runs differ, and the items of the unfiltered run from there on *)
Differ(a, b) == CHOOSE i \in 1..(Len(a) + 1) : /\ i > Len(a) \/ i > Len(b) \/ a[i] # b[i]
                                              /\ \A j \in 1..(i - 1) : j <= Len(b) /\ a[j] = b[j]
From(a, n) == [k \in {i \in n..(n + 3) : i <= Len(a)} |-> {j \in DOMAIN Cur.got.v : Whole(Cur.got.v[j]) = a[k]}]
Init == caseNo = 1 /\ runNo = 1
Judge(r) ==
  IF r.k = "panic" THEN Bad("panic", "events", r.m)
  ELSE IF "name" \in DOMAIN r.f /\ Cardinality(Named(r.f)) < 2 /\ r.f.chosen # Chosen(r.f) THEN Bad("player of that name", Chosen(r.f), r.f.chosen)
  ELSE LET e == Expected(r.f)
       IN IF r.v # e THEN Bad("items", <<Len(e), From(e, Differ(e, r.v))>>, <<Len(r.v), From(r.v, Differ(e, r.v))>>)
          ELSE IF r.f.max < 0 /\ r.end # Cur.end THEN Bad("state at the end", Cur.end, r.end)
          ELSE TRUE
Next ==
  /\ caseNo <= Len(Trace)
  /\ IF Cur.got.k = "ok" /\ runNo <= Len(Cur.runs)
     THEN Judge(Cur.runs[runNo]) /\ runNo' = runNo + 1 /\ caseNo' = caseNo
     ELSE /\ (IF Cur.got.k = "panic" THEN Bad("panic without filters", "events", Cur.got.m) ELSE TRUE)
          /\ caseNo' = caseNo + 1 /\ runNo' = 1
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
