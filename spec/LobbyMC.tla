------------------------------- MODULE LobbyMC -------------------------------
(***************************************************************************)
(* The join of players and lobby slots by working set slot as a machine     *)
(* that takes one player at a time and looks through the slots, for every   *)
(* small lobby.  0 stands for an absent number.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Most == IF IOEnv.DEEP = "1" THEN 3 ELSE 2
Numbers == 0..2
Lists(T) == UNION {[1..n -> T] : n \in 0..Most}
VARIABLES players,   \* working set slots of the players
          lobby,     \* slots: [ws, user]
          at, looking,
          pairs,     \* joined: <<player, slot>>
          owner      \* user -> pair number, 0 if none
vars == <<players, lobby, at, looking, pairs, owner>>
Users == 1..2
Init == /\ players \in Lists(Numbers) /\ lobby \in Lists([ws : Numbers, user : Numbers])
        /\ at = 1 /\ looking = 1 /\ pairs = <<>> /\ owner = [u \in Users |-> 0]
NextPlayer == at' = at + 1 /\ looking' = 1
Take == /\ at <= Len(players)
        /\ IF looking > Len(lobby) THEN NextPlayer /\ UNCHANGED <<pairs, owner>>
           ELSE IF players[at] # 0 /\ players[at] = lobby[looking].ws
           THEN /\ pairs' = Append(pairs, <<at, looking>>) /\ NextPlayer
                /\ owner' = IF lobby[looking].user = 0 THEN owner ELSE [owner EXCEPT ![lobby[looking].user] = Len(pairs) + 1]
           ELSE looking' = looking + 1 /\ UNCHANGED <<at, pairs, owner>>
        /\ UNCHANGED <<players, lobby>>
Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == at > Len(players)
(*------------------------------- properties -------------------------------*)
InOrder == \A i, j \in DOMAIN pairs : i < j => pairs[i][1] < pairs[j][1]
OnFirst == \A i \in DOMAIN pairs : LET p == players[pairs[i][1]] s == pairs[i][2]
                                   IN p # 0 /\ lobby[s].ws = p /\ \A t \in 1..(s - 1) : lobby[t].ws # p
NoneLost == Done => \A n \in DOMAIN players : (players[n] # 0 /\ \E s \in DOMAIN lobby : lobby[s].ws = players[n]) => \E i \in DOMAIN pairs : pairs[i][1] = n
OneState == \A u \in Users : owner[u] # 0 <=> \E i \in DOMAIN pairs : lobby[pairs[i][2]].user = u
Ends == <>Done
Vector == Done => PrintT("@VEC " \o ToJson([p |-> players, s |-> [i \in DOMAIN lobby |-> <<lobby[i].ws, lobby[i].user>>], pairs |-> pairs]))
=============================================================================
