------------------------------ MODULE LobbyTrace ------------------------------
(***************************************************************************)
(* The join of the player list of the details with the slots of the lobby   *)
(* and what is derived from it: the players, the initial user states, the   *)
(* flat rows, the identity of the replay.  One case per line; the lobby and *)
(* details of a case are what the readers returned (judged by WireTrace).   *)
(***************************************************************************)
EXTENDS LobbyOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Out == Cur.got.v
D == Fs(Out.details)
Ini == Fs(Out.init)
Sync == Fs(Ini.sync_lobby_state)
Slots == Elems(Fs(Sync.lobby_state).slots)
Initial == Elems(Sync.user_initial_data)
Empty == <<1>>

(*---------------------------------- join ----------------------------------*)
Matches(p, s) == ~IsNothing(Fs(p).working_set_slot_id) /\ Fs(p).working_set_slot_id = Fs(s).working_set_slot_id
(* The first slot of the player, 0 if there is none. *)
SlotOf(p) == LET M == {i \in DOMAIN Slots : Matches(p, Slots[i])} IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j
InitialField(i, n) == IF i > Len(Initial) THEN Empty ELSE IF IsNothing(Fs(Initial[i])[n]) THEN Empty ELSE Fs(Initial[i])[n]
Joined(p) ==
  LET i == SlotOf(p) IN
  Rec([player_details |-> p, lobby_slot |-> Slots[i], title |-> D.title, game_description |-> Sync.game_description,
       time_utc |-> D.time_utc, time_local_offset |-> D.time_local_offset,
       user_init_data_name |-> InitialField(i, "name"), user_init_data_clan_tag |-> InitialField(i, "clan_tag"),
       tracker_setup_player_id |-> Unit, tracker_setup_slot_id |-> Unit, cache_handles |-> D.cache_handles,
       ext_fs_sha256 |-> Cur.sha, ext_fs_file_name |-> Cur.path, ext_fs_id |-> Cur.fsid, ext_datetime |-> D.ext_datetime])
PlayerList == Elems(D.player_list)
InLobby == SelectSeq(PlayerList, LAMBDA p : SlotOf(p) # 0)
Players == [i \in DOMAIN InLobby |-> Joined(InLobby[i])]

(*------------------------------- user states ------------------------------*)
UserOf(p) == Fs(Fs(p).lobby_slot).user_id
NoGroups == ListOf([i \in 1..11 |-> ListOf(<<>>)])
Origin == Rec([x |-> Zero, y |-> Zero])
FreshState(p) == Rec([player_lobby_details |-> p, control_groups |-> NoGroups, camera_pos |-> Origin])
Users == {UserOf(Players[i]) : i \in {j \in DOMAIN Players : ~IsNothing(UserOf(Players[j]))}}
(* Players on slots of one user cannot be told apart: any of them may be the user's. *)
StatesOk == /\ {Out.users[i][1] : i \in DOMAIN Out.users} = Users
            /\ Len(Out.users) = Cardinality(Users)
            /\ \A i \in DOMAIN Out.users : \E j \in DOMAIN Players : UserOf(Players[j]) = Out.users[i][1] /\ Out.users[i][2] = FreshState(Players[j])

(*---------------------------------- cases ---------------------------------*)
Bad(props, what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> props, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE
(* Only what differs, so that a report can be read. *)
RECURSIVE Differ(_, _)
Differ(e, o) == IF e = o THEN {}
                ELSE IF e[1] = 5 /\ o[1] = 5 /\ DOMAIN e[2] = DOMAIN o[2] THEN UNION {{<<n, d>> : d \in Differ(e[2][n], o[2][n])} : n \in {m \in DOMAIN e[2] : e[2][m] # o[2][m]}}
                ELSE {<<e, o>>}
Same(props, what, e, o) == IF Len(e) # Len(o) THEN Bad(props, what, Len(e), Len(o))
                           ELSE \A i \in DOMAIN e : IF e[i] = o[i] THEN TRUE ELSE Bad(props, what, i, Differ(e[i], o[i]))
Observing(p) == Fs(p).observe # Zero
Judge ==
  IF Cur.got.k = "panic" THEN Bad(<<"C17", "C21">>, "panic", "players", Cur.got.m)
  ELSE IF Cur.got.k = "err" THEN PrintT("@SKIP " \o ToJson(Cur.id))
  ELSE /\ Same(<<"C17">>, "players", Players, Out.players)
       /\ (IF StatesOk THEN TRUE ELSE Bad(<<"C17">>, "user states", Users, [i \in DOMAIN Out.users |-> Out.users[i][1]]))
       /\ Same(<<"C17">>, "flat rows", [i \in DOMAIN Players |-> FlatRow(Players[i])], Out.rows)
       /\ Same(<<"C17">>, "user rows", UserRows(Out.init), Out.urows)
       /\ LET active == SelectSeq(PlayerList, LAMBDA p : ~Observing(p))
          IN Same(<<"C17">>, "names of the players that do not observe", [i \in DOMAIN active |-> Fs(active[i]).name], Out.names)
       /\ (IF Out.same THEN TRUE ELSE Bad(<<"C17">>, "the state keeps lobby and details and starts without units", TRUE, FALSE))
       /\ (IF (Ini.ext_fs_sha256 = Cur.sha /\ Ini.ext_fs_file_name = Cur.path /\ Ini.ext_fs_id = Cur.fsid /\ Ini.version = NumOf(Cur.build) /\ D.ext_fs_id = Cur.fsid)
           THEN TRUE ELSE Bad(<<"C23">>, "identity", <<Cur.sha, Cur.path, Cur.fsid, Cur.build>>, <<Ini.ext_fs_sha256, Ini.ext_fs_file_name, Ini.ext_fs_id, Ini.version, D.ext_fs_id>>))
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
