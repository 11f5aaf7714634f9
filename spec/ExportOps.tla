------------------------------ MODULE ExportOps ------------------------------
(***************************************************************************)
(* The rows that an event, with its change hint, contributes to each of the *)
(* exported tables.  All rows lack the seconds column, which is judged by   *)
(* the durations of TimeOps.                                               *)
(***************************************************************************)
EXTENDS TimeOps, LobbyOps

Kind(i) == CHOOSE k \in DOMAIN Fs(i.e) : TRUE
Body(i) == Fs(Fs(i.e)[Kind(i)])
Hint(i) == IF i.h[1] = 5 THEN CHOOSE k \in DOMAIN Fs(i.h) : TRUE ELSE "None"
HintIn(i) == Fs(Fs(i.h)[Hint(i)])
OfLoop(i, id) == [ext_replay_loop |-> i.l, ext_fs_id |-> id]
(* a small whole number as a float: mantissa and exponent of two *)
RECURSIVE Halve(_, _)
Halve(n, e) == IF n = 0 THEN <<0, 0>> ELSE IF n % 2 = 0 THEN Halve(n \div 2, e + 1) ELSE <<n, e>>
FloatOf(v) == <<9, Halve(IntOf(v), 0)>>
(* floats that are whole numbers are written without a fraction *)
Text0 == <<1>>
NameOr(v, d) == IF IsNothing(v) THEN d ELSE Fs(v).name

StatsRows(i, id) ==
  IF i.t = "T" /\ Kind(i) = "PlayerStats" THEN <<Rec(Fs(Body(i).stats) @@ [player_id |-> Body(i).player_id] @@ OfLoop(i, id))>> ELSE <<>>
UpgradeRows(i, id) ==
  IF i.t = "T" /\ Kind(i) = "Upgrade"
  THEN <<Rec([player_id |-> Body(i).player_id, name |-> Body(i).upgrade_type_name, count |-> Body(i).count] @@ OfLoop(i, id))>> ELSE <<>>
(* born, completed and newly registered by renaming *)
BornRows(i, id) ==
  IF i.t = "T" /\ Kind(i) \in {"UnitBorn", "UnitDone", "UnitTypeChange"} /\ Hint(i) = "Registered"
  THEN LET b == Body(i) u == Fs(HintIn(i).unit)
           common == [unit_tag_index |-> b.unit_tag_index, unit_tag_recycle |-> b.unit_tag_recycle,
                      creator_unit_type_name |-> NameOr(HintIn(i).creator, Unit), player_name |-> u.player_name] @@ OfLoop(i, id)
       IN <<Rec(IF Kind(i) = "UnitBorn"
                THEN [unit_type_name |-> b.unit_type_name, control_player_id |-> b.control_player_id, upkeep_player_id |-> b.upkeep_player_id,
                      x |-> FloatOf(b.x), y |-> FloatOf(b.y), creator_unit_tag_index |-> b.creator_unit_tag_index,
                      creator_unit_tag_recycle |-> b.creator_unit_tag_recycle, creator_ability_name |-> b.creator_ability_name] @@ common
                ELSE [unit_type_name |-> u.name, control_player_id |-> u.user_id, upkeep_player_id |-> u.user_id,
                      x |-> Elems(u.pos)[1], y |-> Elems(u.pos)[2], creator_unit_tag_index |-> Unit,
                      creator_unit_tag_recycle |-> Unit, creator_ability_name |-> u.creator_ability_name] @@ common)>>
  ELSE <<>>
DiedRows(i, id) ==
  IF i.t = "T" /\ Kind(i) = "UnitDied" /\ Hint(i) = "Unregistered"
  THEN LET b == Body(i) h == HintIn(i)
       IN <<Rec([unit_died_name |-> Fs(h.killed).name, unit_tag_index |-> b.unit_tag_index, unit_tag_recycle |-> b.unit_tag_recycle,
                 killer_player_id |-> b.killer_player_id, x |-> b.x, y |-> b.y, unit_killer_name |-> NameOr(h.killer, Text0),
                 killer_unit_tag_index |-> b.killer_unit_tag_index, killer_unit_tag_recycle |-> b.killer_unit_tag_recycle] @@ OfLoop(i, id))>>
  ELSE <<>>
Targets(i, what) == i.t = "G" /\ Kind(i) = "Cmd" /\ Body(i).m_data[1] = 5 /\ what \in DOMAIN Fs(Body(i).m_data) /\ Hint(i) = "Abilities"
CmdRow(i, id, u) ==
  LET b == Body(i) a == b.m_abil
  IN [user_id |-> i.u, player_name |-> i.n, cmd_flags |-> b.m_cmd_flags, abil_link |-> IF IsNothing(a) THEN a ELSE Fs(a).m_abil_link,
      abil_cmd_index |-> IF IsNothing(a) THEN a ELSE Fs(a).m_abil_cmd_index, ability |-> IF IsNothing(a) THEN Text0 ELSE Fs(a).ability,
      sequence |-> b.m_sequence, unit_name |-> u.name] @@ OfLoop(i, id)
(* one row for every commanded unit *)
PointRows(i, id) ==
  IF ~Targets(i, "TargetPoint") THEN <<>>
  ELSE LET us == Elems(HintIn(i).units) p == Fs(Fs(Body(i).m_data).TargetPoint)
       IN [k \in DOMAIN us |-> Rec([target_point_x |-> p.x, target_point_y |-> p.y, target_point_z |-> p.z, unit_group |-> Body(i).m_unit_group] @@ CmdRow(i, id, Fs(us[k])))]
UnitRows(i, id) ==
  IF ~Targets(i, "TargetUnit") THEN <<>>
  ELSE LET us == Elems(HintIn(i).units) t == Fs(Fs(Body(i).m_data).TargetUnit) p == Fs(t.m_snapshot_point)
       IN [k \in DOMAIN us |->
             LET other == Fs(Fs(us[k]).cmd).other_unit_name
             IN Rec([target_unit_flags |-> t.m_target_unit_flags, tag |-> t.m_tag, snapshot_unit_link |-> t.m_snapshot_unit_link,
                     snapshot_control_player_id |-> t.m_snapshot_control_player_id, snapshot_upkeep_player_id |-> t.m_snapshot_upkeep_player_id,
                     snapshot_point_x |-> p.x, snapshot_point_y |-> p.y, snapshot_point_z |-> p.z,
                     target_unit_name |-> IF IsNothing(other) THEN Text0 ELSE other] @@ CmdRow(i, id, Fs(us[k])))]
RowsOf(t, i, id) ==
  CASE t = "stats" -> StatsRows(i, id) [] t = "upgrades" -> UpgradeRows(i, id) [] t = "unit_born" -> BornRows(i, id)
    [] t = "unit_died" -> DiedRows(i, id) [] t = "cmd_target_point" -> PointRows(i, id) [] t = "cmd_target_unit" -> UnitRows(i, id)
EventRows(t, s, id) == SX!FoldLeft(LAMBDA a, i : a \o RowsOf(t, i, id), <<>>, s)
(* dates are stored as microseconds *)
(* in nanoseconds, of 64 bits: a replay of another date has no player rows *)
Storable(p) == MagLess(MagMul(Mag(Micros(Fs(p).time_utc, Fs(p).time_local_offset)), 1000), <<0, 0, 0, 32768>>)
DetailsRow(p) == Rec([Fs(FlatRow(p)) EXCEPT !.ext_datetime = Micros(Fs(p).time_utc, Fs(p).time_local_offset)])
=============================================================================
