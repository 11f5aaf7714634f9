----------------------------- MODULE BalanceTrace -----------------------------
(***************************************************************************)
(* What the library made of balance data: lookups, tables written and read  *)
(* again, and the names in the events of replays.  One case per line;       *)
(* numbers are text.                                                       *)
(***************************************************************************)
EXTENDS BalanceOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> <<"C20">>, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE

(* asked: <<version, unit type, ability id, command index, name given>>; tables: version -> table *)
Expected(q) == IF q[1] \notin DOMAIN Cur.tables THEN "" ELSE NameFor(Cur.tables[q[1]], q[2], q[3], q[4])
Lookups == \A i \in DOMAIN Cur.asked : LET q == Cur.asked[i] IN IF q[5] = Expected(q) THEN TRUE ELSE Bad("name", Expected(q), q)
SameTables == LET versions == {v \in DOMAIN Cur.tables : DOMAIN Cur.tables[v] # {}} IN
              IF DOMAIN Cur.read = versions THEN
                \A v \in versions : IF Cur.read[v] = Cur.tables[v] THEN TRUE
                  ELSE IF DOMAIN Cur.read[v] # DOMAIN Cur.tables[v] THEN Bad("unit types", DOMAIN Cur.tables[v], DOMAIN Cur.read[v])
                  ELSE LET u == CHOOSE x \in DOMAIN Cur.read[v] : Cur.read[v][x] # Cur.tables[v][x] IN Bad("table", Cur.tables[v][u], Cur.read[v][u])
              ELSE Bad("versions", versions, DOMAIN Cur.read)
(* commands: <<unit type, ability id, command index, name given>> of the command events of a replay *)
Mine == IF Cur.version \in DOMAIN Cur.tables THEN Cur.tables[Cur.version] ELSE <<>>
Own == /\ (IF Cur.loaded = Mine \/ (DOMAIN Cur.loaded = {} /\ DOMAIN Mine = {}) THEN TRUE ELSE Bad("balance data of the replay", DOMAIN Mine, DOMAIN Cur.loaded))
       /\ \A i \in DOMAIN Cur.commands : LET c == Cur.commands[i] IN
            IF c[4] = NameFor(Mine, c[1], c[2], c[3]) THEN TRUE ELSE Bad("command", NameFor(Mine, c[1], c[2], c[3]), c)
Judge == CASE Cur.k = "panic" -> Bad("panic", "a result", Cur.m)
           [] Cur.k = "err" -> Bad("error", "a result", Cur.m)
           [] Cur.k = "tables" -> Lookups /\ SameTables
           [] Cur.k = "replay" -> Own
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
