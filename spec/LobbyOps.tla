------------------------------- MODULE LobbyOps -------------------------------
(***************************************************************************)
(* The flat rows of joined players and of the users of a lobby.             *)
(***************************************************************************)
EXTENDS Lib
(*--------------------------------- flat rows ------------------------------*)
HexValue(c) == IF c >= 97 THEN c - 87 ELSE c - 48
(* one byte as a character of Unicode, in UTF-8 *)
Char(b) == IF b < 128 THEN <<b>> ELSE <<192 + (b \div 64), 128 + (b % 64)>>
RECURSIVE Unhex(_, _)
Unhex(s, i) == IF i + 1 > Len(s) THEN <<>> ELSE Char(16 * HexValue(s[i]) + HexValue(s[i + 1])) \o Unhex(s, i + 2)
(* the hexadecimal digits of a handle: 8 extension, 4 zero, 4 region, the rest is the hash *)
WellFormed(h) == Len(h) - 1 >= 16
Handles(p) == SelectSeq(Elems(Fs(p).cache_handles), WellFormed)
Ext(h) == <<1>> \o Unhex(SubSeq(h, 2, 9), 1)
Region(h) == <<1>> \o Unhex(SubSeq(h, 14, 17), 1)
Hash(h) == SubSeq(h, 18, Len(h))
RECURSIVE Commas(_, _)
Commas(hs, i) == IF i > Len(hs) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<44>>) \o Hash(hs[i]) \o Commas(hs, i + 1)
FlatRow(p) ==
  LET f == Fs(p) d == Fs(f.player_details) t == Fs(d.toon) c == Fs(d.color) s == Fs(f.lobby_slot) g == Fs(f.game_description) h == Handles(p)
  IN Rec([player_name |-> d.name, player_toon_region |-> t.region, player_toon_program_id |-> t.program_id, player_toon_realm |-> t.realm,
          player_toon_id |-> t.id, player_race |-> d.race, player_color_a |-> c.a, player_color_r |-> c.r, player_color_g |-> c.g, player_color_b |-> c.b,
          player_control |-> d.control, player_team_id |-> d.team_id, player_observe |-> d.observe, player_result |-> d.result,
          player_working_set_slot_id |-> d.working_set_slot_id, player_hero |-> d.hero, title |-> f.title, is_blizzard_map |-> g.is_blizzard_map,
          time_utc |-> f.time_utc, time_local_offset |-> f.time_local_offset, lobby_slot_user_id |-> s.user_id, lobby_slot_observe |-> s.observe,
          lobby_slot_map_size_x |-> g.map_size_x, lobby_slot_map_size_y |-> g.map_size_y,
          cache_handle_region |-> IF h = <<>> THEN Unit ELSE Region(h[1]), cache_handle_extension |-> IF h = <<>> THEN Unit ELSE Ext(h[1]),
          cache_handles |-> <<1>> \o Commas(h, 1), ext_fs_sha256 |-> f.ext_fs_sha256, ext_fs_file_name |-> f.ext_fs_file_name,
          ext_fs_id |-> f.ext_fs_id, ext_datetime |-> f.ext_datetime])
(* one row per user of the lobby data *)
UserRows(ini) ==
  LET users == Elems(Fs(Fs(ini).sync_lobby_state).user_initial_data)
  IN [i \in DOMAIN users |-> LET u == Fs(users[i]) IN
        Rec([ext_fs_id |-> Fs(ini).ext_fs_id, ext_fs_sha256 |-> Fs(ini).ext_fs_sha256, ext_fs_file_name |-> Fs(ini).ext_fs_file_name,
             user_index |-> NumOf(i - 1), name |-> u.name, clan_tag |-> IF IsNothing(u.clan_tag) THEN <<1>> ELSE u.clan_tag, scaled_rating |-> u.scaled_rating])]
=============================================================================
