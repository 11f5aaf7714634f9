-------------------------------- MODULE BalanceOps --------------------------------
(***************************************************************************)
(* The names that the balance data of a unit type give to its commands.     *)
(*                                                                         *)
(* A table maps unit types to [radius, abilities, trains, builds,           *)
(* researches].  An ability is [id, index : option, cmds], a command        *)
(* [id : option, index]; the others are [id, ability : option,              *)
(* index : option].                                                         *)
(***************************************************************************)
EXTENDS Prelude

FirstIdx(s, P(_)) == LET I == {i \in DOMAIN s : P(s[i])}
                     IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
(* Abilities come first, then trainings, builds and researches; within each the first in the table. *)
NameIn(b, link, cmd) ==
  LET HasCmd(a) == a.index = Some(link) /\ \E i \in DOMAIN a.cmds : a.cmds[i].index = cmd
      Same(r) == r.ability = Some(link) /\ r.index = Some(cmd)
      ai == FirstIdx(b.abilities, HasCmd)
      ti == FirstIdx(b.trains, Same)
      bi == FirstIdx(b.builds, Same)
      ri == FirstIdx(b.researches, Same)
  IN CASE ai > 0 -> LET a == b.abilities[ai]
                        IsCmd(c) == c.index = cmd
                        c == a.cmds[FirstIdx(a.cmds, IsCmd)]
                    IN a.id \o "." \o (IF IsSome(c.id) THEN Get(c.id) ELSE "")
       [] ai = 0 /\ ti > 0 -> "Train." \o b.trains[ti].id
       [] ai = 0 /\ ti = 0 /\ bi > 0 -> "Build." \o b.builds[bi].id
       [] ai = 0 /\ ti = 0 /\ bi = 0 /\ ri > 0 -> "Research." \o b.researches[ri].id
       [] OTHER -> ""
NameFor(table, type, link, cmd) == IF type \notin DOMAIN table THEN "" ELSE NameIn(table[type], link, cmd)
=============================================================================
