------------------------------ MODULE BalanceMC ------------------------------
(***************************************************************************)
(* Looking up the name of a command as a machine that goes through the      *)
(* table of a unit type entry by entry, for every small table; it must end  *)
(* with what BalanceOps defines.  The command looked up is (1, 0).          *)
(***************************************************************************)
EXTENDS BalanceOps, Json, IOUtils

Deep == IOEnv.DEEP = "1"
Lists(T, n) == UNION {[1..m -> T] : m \in 0..n}
CmdKinds == {[id |-> Some("c"), index |-> 0], [id |-> None, index |-> 0], [id |-> Some("d"), index |-> 1]}
Abilities == [id : {"a"}, index : {None, Some(1), Some(2)}, cmds : Lists(CmdKinds, 2)]
Refs == [id : {"r"}, ability : {None, Some(1), Some(2)}, index : {None, Some(0), Some(1)}]
Named == {r \in Refs : IsSome(r.ability) /\ IsSome(r.index)}     \* researches always have both numbers
Tables == [radius : {None}, abilities : Lists(Abilities, IF Deep THEN 2 ELSE 1), trains : Lists(Refs, IF Deep THEN 1 ELSE 2), builds : Lists(Refs, 1), researches : Lists(Named, 1)]
(* Entries get distinct names, so that it shows which one was found. *)
Number(s, p) == [i \in DOMAIN s |-> [s[i] EXCEPT !.id = p \o ToString(i)]]
NumberCmds(a) == [a EXCEPT !.cmds = [i \in DOMAIN a.cmds |-> [a.cmds[i] EXCEPT !.id = IF IsSome(@) THEN Some(Get(@) \o ToString(i)) ELSE @]]]
Distinct(t) == [t EXCEPT !.abilities = Number([i \in DOMAIN t.abilities |-> NumberCmds(t.abilities[i])], "Ab"), !.trains = Number(@, "Tr"), !.builds = Number(@, "Bu"), !.researches = Number(@, "Re")]

VARIABLES table, part, at, cmd, result
vars == <<table, part, at, cmd, result>>
Parts == <<"abilities", "trains", "builds", "researches">>
Prefix == <<"", "Train.", "Build.", "Research.">>
Init == table \in Tables /\ part = 1 /\ at = 1 /\ cmd = 1 /\ result = None
T == Distinct(table)
Cur == T[Parts[part]]
NextEntry == at' = at + 1 /\ cmd' = 1 /\ UNCHANGED <<table, part, result>>
Look ==
  /\ result = None
  /\ IF part > 4 THEN result' = Some("") /\ UNCHANGED <<table, part, at, cmd>>
     ELSE IF at > Len(Cur) THEN part' = part + 1 /\ at' = 1 /\ cmd' = 1 /\ UNCHANGED <<table, result>>
     ELSE LET e == Cur[at] IN
       IF part = 1
       THEN IF e.index # Some(1) \/ cmd > Len(e.cmds) THEN NextEntry
            ELSE IF e.cmds[cmd].index = 0 THEN result' = Some(e.id \o "." \o (IF IsSome(e.cmds[cmd].id) THEN Get(e.cmds[cmd].id) ELSE "")) /\ UNCHANGED <<table, part, at, cmd>>
            ELSE cmd' = cmd + 1 /\ UNCHANGED <<table, part, at, result>>
       ELSE IF e.ability = Some(1) /\ e.index = Some(0) THEN result' = Some(Prefix[part] \o e.id) /\ UNCHANGED <<table, part, at, cmd>>
       ELSE NextEntry
Next == Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Found == result # None => Get(result) = NameIn(T, 1, 0)
Ends == <>(result # None)
Vector == result # None => PrintT("@VEC " \o ToJson([t |-> T, name |-> Get(result)]))
=============================================================================
