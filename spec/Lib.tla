--------------------------------- MODULE Lib ---------------------------------
(***************************************************************************)
(* What the library makes of decoded protocol values: which events are      *)
(* passed on, how fields are named and rendered.  Input are raw values of   *)
(* module Wire, output are values in the same notation as the library shows *)
(* them: variants without payload are texts, variants with payload are      *)
(* records of one field.                                                   *)
(***************************************************************************)
EXTENDS Wire

(*--------------------------------- names ---------------------------------*)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == TLCEval([c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c])
TextOf(s) == <<1>> \o [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]

(* the variants and the fields of a schema (sets of types would mix incomparable values) *)
OfKind(S, ks) == {n \in DOMAIN S : S[n].k \in ks}
VariantsIn(S) == UNION {{S[n].v[i].n : i \in DOMAIN S[n].v} : n \in OfKind(S, {"enum", "choice", "benum"})}
FieldsIn(S) == UNION {{S[n].f[i].n : i \in DOMAIN S[n].f} : n \in OfKind(S, {"struct", "bstruct"})}
VariantNames == TLCEval(VariantsIn(Schema87702) \cup VariantsIn(Schema75689))
FieldNames == TLCEval(FieldsIn(Schema87702) \cup FieldsIn(Schema75689))
DropChars(s, n) == SubSeq(s, n + 1, Len(s))
VariantText == TLCEval([n \in VariantNames |-> TextOf(n)])
(* EFoo -> Foo *)
Bare == TLCEval([n \in VariantNames |-> IF SubSeq(n, 1, 1) = "E" THEN DropChars(n, 1) ELSE n])
BareText == TLCEval([n \in VariantNames |-> TextOf(Bare[n])])
(* m_foo -> foo *)
HasM(n) == Len(n) > 2 /\ SubSeq(n, 1, 2) = "m_"
Short == TLCEval([n \in FieldNames |-> IF HasM(n) THEN DropChars(n, 2) ELSE n])
Long == TLCEval([s \in {Short[n] : n \in FieldNames} |-> CHOOSE n \in FieldNames : Short[n] = s])

Rec(f) == <<5, f>>
Fs(v) == v[2]
Elems(v) == SubSeq(v, 2, Len(v))
ListOf(s) == <<4>> \o s
MapList(Op(_), v) == ListOf([i \in 1..(Len(v) - 1) |-> Op(v[i + 1])])
IsNothing(v) == v[1] = 3
Maybe(Op(_), v) == IF IsNothing(v) THEN v ELSE Op(v)
Zero == <<0, 0>>

(* As it is, only variants change their form. *)
RECURSIVE J(_)
J(v) == CASE v[1] = 4 -> MapList(J, v)
          [] v[1] = 5 -> Rec([n \in DOMAIN v[2] |-> J(v[2][n])])
          [] v[1] = 8 -> IF IsNothing(v[3]) THEN VariantText[v[2]] ELSE Rec(v[2] :> J(v[3]))
          [] OTHER -> v
(* The fields of a record without the leading m_ of their names. *)
Shorten(v) == LET f == Fs(v) IN [s \in {Short[n] : n \in DOMAIN f} |-> IF s \in DOMAIN f THEN f[s] ELSE f["m_" \o s]]
ShortRec(v) == LET f == Shorten(v) IN Rec([s \in DOMAIN f |-> J(f[s])])

(*--------------------------------- texts ---------------------------------*)
(* The bytes that may come next, as an automaton: 0 between characters, k for k more bytes of any kind, 4..7 where the
   next byte is restricted (after E0, ED, F0, F4), 9 when the text is none. *)
Continues(k, b) == IF b < 128 \/ b > 191 THEN 9
                   ELSE CASE k = 4 -> IF b >= 160 THEN 1 ELSE 9 [] k = 5 -> IF b < 160 THEN 1 ELSE 9
                          [] k = 6 -> IF b >= 144 THEN 2 ELSE 9 [] k = 7 -> IF b < 144 THEN 2 ELSE 9
                          [] OTHER -> k - 1
Begins(b) == IF b < 128 THEN 0 ELSE IF b < 194 THEN 9 ELSE IF b < 224 THEN 1
             ELSE IF b = 224 THEN 4 ELSE IF b = 237 THEN 5 ELSE IF b < 240 THEN 2
             ELSE IF b = 240 THEN 6 ELSE IF b < 244 THEN 3 ELSE IF b = 244 THEN 7 ELSE 9
Utf8(v) == \/ IsNothing(v)
           \/ \A i \in 2..Len(v) : v[i] < 128
           \/ SX!FoldLeft(LAMBDA k, b : IF k = 9 THEN 9 ELSE IF k = 0 THEN Begins(b) ELSE Continues(k, b), 0, Tail(v)) = 0

Digit(n) == 48 + n
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<Digit(n)>> ELSE Decimal(n \div 10) \o <<Digit(n % 10)>>
(* [1, 2, 3] *)
Listing(s) == SX!FoldLeft(LAMBDA a, b : (IF a = <<>> THEN a ELSE a \o <<44, 32>>) \o Decimal(b), <<>>, s)
DebugBytes(v) == <<91>> \o Listing(Elems(v)) \o <<93>>
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(v) == <<1>> \o [i \in 1..(2 * (Len(v) - 1)) |->
                       LET b == v[((i + 1) \div 2) + 1] IN IF i % 2 = 1 THEN HexDigit(b \div 16) ELSE HexDigit(b % 16)]
(* bytes that are shown as a list of numbers *)
Numbers8(v) == ListOf([i \in 1..(Len(v) - 1) |-> NumOf(v[i + 1])])

(*----------------------------- tracker events -----------------------------*)
(* /4096, towards zero *)
MagShr12(m) == [i \in DOMAIN m |-> (m[i] \div 4096) + 16 * (Limb(m, i + 1) % 4096)]
Per4096(v) == Num(v[2], MagShr12(Mag(v)))
StatPrefix == "m_score_value_"
StatName == TLCEval([n \in {m \in FieldNames : Len(m) > 14 /\ SubSeq(m, 1, 14) = StatPrefix} |-> DropChars(n, 14)])
Stats(v) == LET f == Fs(v)
            IN Rec([s \in {StatName[n] : n \in DOMAIN f} |->
                      IF s \in {"food_used", "food_made"} THEN Per4096(f[StatPrefix \o s]) ELSE f[StatPrefix \o s]])
(* The statistics as a list of names and values, for plots: by resource, in this order. *)
StatPaths == <<
  <<"minerals_current", "minerals/current">>, <<"vespene_current", "vespene/current">>, <<"minerals_collection_rate", "minerals/collection_rate">>,
    <<"vespene_collection_rate", "vespene/collection_rate">>, <<"workers_active_count", "workers_active_count">>,
    <<"minerals_used_in_progress_army", "minerals/used_in_progress_army">>,
    <<"minerals_used_in_progress_economy", "minerals/used_in_progress_economy">>,
    <<"minerals_used_in_progress_technology", "minerals/used_in_progress_technology">>,
    <<"vespene_used_in_progress_army", "vespene/used_in_progress_army">>, <<"vespene_used_in_progress_economy", "vespene/used_in_progress_economy">>,
    <<"vespene_used_in_progress_technology", "vespene/used_in_progress_technology">>, <<"minerals_used_current_army", "minerals/used_current_army">>,
    <<"minerals_used_current_economy", "minerals/used_current_economy">>, <<"minerals_used_current_technology", "minerals/used_current_technology">>,
    <<"vespene_used_current_army", "vespene/used_current_army">>, <<"vespene_used_current_economy", "vespene/used_current_economy">>,
    <<"vespene_used_current_technology", "vespene/used_current_technology">>, <<"minerals_lost_army", "minerals/lost_army">>,
    <<"minerals_lost_economy", "minerals/lost_economy">>, <<"minerals_lost_technology", "minerals/lost_technology">>,
    <<"vespene_lost_army", "vespene/lost_army">>, <<"vespene_lost_economy", "vespene/lost_economy">>,
    <<"vespene_lost_technology", "vespene/lost_technology">>, <<"minerals_killed_army", "minerals/killed_army">>,
    <<"minerals_killed_economy", "minerals/killed_economy">>, <<"minerals_killed_technology", "minerals/killed_technology">>,
    <<"vespene_killed_army", "vespene/killed_army">>, <<"vespene_killed_economy", "vespene/killed_economy">>,
    <<"vespene_killed_technology", "vespene/killed_technology">>, <<"food_used", "food/used">>, <<"food_made", "food/made">>,
    <<"minerals_used_active_forces", "minerals/used_active_forces">>, <<"vespene_used_active_forces", "vespene/used_active_forces">>,
    <<"minerals_friendly_fire_army", "minerals/friendly_fire_army">>, <<"minerals_friendly_fire_economy", "minerals/friendly_fire_economy">>,
    <<"minerals_friendly_fire_technology", "minerals/friendly_fire_technology">>, <<"vespene_friendly_fire_army", "vespene/friendly_fire_army">>,
    <<"vespene_friendly_fire_economy", "vespene/friendly_fire_economy">>, <<"vespene_friendly_fire_technology", "vespene/friendly_fire_technology">>>>
StatTexts == TLCEval([i \in DOMAIN StatPaths |-> TextOf(StatPaths[i][2])])
NamedStats(e) == IF e[2] # "EPlayerStats" THEN <<>>
                 ELSE LET f == Fs(Stats(Fs(e[3]).m_stats)) IN [i \in DOMAIN StatPaths |-> <<StatTexts[i], f[StatPaths[i][1]]>>]
NamedUnits == {"EUnitBorn", "EUnitInit", "EUnitTypeChange"}
TrackerSupported(e) ==
  e[2] \in NamedUnits => /\ Utf8(Fs(e[3]).m_unit_type_name)
                         /\ (e[2] = "EUnitBorn" => Utf8(Fs(e[3]).m_creator_ability_name))
TrackerEvent(e) ==
  Rec(Bare[e[2]] :>
    CASE e[2] = "EPlayerStats" -> Rec([player_id |-> Fs(e[3]).m_player_id, stats |-> Stats(Fs(e[3]).m_stats)])
      [] e[2] = "EPlayerSetup" -> Rec([player_id |-> Fs(e[3]).m_player_id, m_type |-> Fs(e[3]).m_type,
                                       user_id |-> Fs(e[3]).m_user_id, slot_id |-> Fs(e[3]).m_slot_id])
      [] e[2] = "EUpgrade" -> LET n == Fs(e[3]).m_upgrade_type_name
                              IN Rec([player_id |-> Fs(e[3]).m_player_id, count |-> Fs(e[3]).m_count, player_name |-> Unit,
                                      upgrade_type_name |-> IF Utf8(n) THEN n ELSE <<1>> \o DebugBytes(n)])
      [] OTHER -> ShortRec(e[3]))

(*------------------------------- game events ------------------------------*)
GameKinds == {"EDropUser", "ECameraSave", "ECmd", "ESelectionDelta", "EControlGroupUpdate", "ESelectionSyncCheck",
              "ETriggerChatMessage", "EUnitClick", "EUnitHighlight", "ETriggerReplySelected", "ECameraUpdate",
              "ETriggerMouseClicked", "ETriggerMouseMoved", "ETriggerHotkeyPressed", "ETriggerTargetModeUpdate",
              "ETriggerKeyPressed", "ETriggerMouseWheel", "ETriggerButtonPressed", "ECommandManagerState",
              "ECmdUpdateTargetPoint", "ECmdUpdateTargetUnit"}
GameSupported(e) == e[2] \in GameKinds
MaskOf(v) == CASE v[2] = "None" -> VariantText["None"]
               [] v[2] = "Mask" -> Rec("Mask" :> Rec("value" :> Numbers8(v[3])))
               [] OTHER -> Rec(v[2] :> Rec("value" :> J(v[3])))
WithAbility(v) == Rec(Fs(J(v)) @@ ("ability" :> <<1>>))
Set1(v, n, x) == Rec([Fs(v) EXCEPT ![n] = x])
GameEvent(e) ==
  Rec(Bare[e[2]] :>
    LET f == Fs(e[3]) IN
    CASE e[2] = "EDropUser" -> Set1(J(e[3]), "m_reason", BareText[f.m_reason[2]])
      [] e[2] = "ECmd" -> Set1(J(e[3]), "m_abil", Maybe(WithAbility, f.m_abil))
      [] e[2] = "ETriggerTargetModeUpdate" -> WithAbility(e[3])
      [] e[2] = "EControlGroupUpdate" -> Rec([n \in DOMAIN f |-> IF n = "m_mask" THEN MaskOf(f[n]) ELSE J(f[n])])
      [] e[2] = "ESelectionDelta" ->
           LET d == Fs(f.m_delta)
           IN Rec([f EXCEPT !.m_delta = Rec([n \in DOMAIN d |-> IF n = "m_remove_mask" THEN MaskOf(d[n]) ELSE J(d[n])])])
      [] e[2] = "ETriggerChatMessage" ->
           Rec([f EXCEPT !.m_chat_message = IF Utf8(@) THEN @ ELSE TextOf("InvalidUTF8(") \o DebugBytes(@) \o <<41>>])
      [] OTHER -> J(e[3]))

(*----------------------------- message events -----------------------------*)
MessageSupported(e) == e[2] = "EChat" /\ Utf8(Fs(e[3]).m_string)
MessageEvent(e) == Rec("EChat" :> J(e[3]))

(*--------------------------------- details --------------------------------*)
ListOrEmpty(Op(_), v) == IF IsNothing(v) THEN ListOf(<<>>) ELSE MapList(Op, v)
ObserveNo == [ENone |-> 0, ESpectator |-> 1, EReferee |-> 2]
Player(v) ==
  LET f == Shorten(v) toon == Shorten(f.toon) color == Shorten(f.color)
  IN Rec([f EXCEPT !.toon = Rec(Without(toon, {"name"})), !.color = Rec(color),
                   !.observe = NumOf(ObserveNo[@[2]]), !.result = BareText[@[2]]])
PlayerUtf8(v) == Utf8(Fs(v).m_name) /\ Utf8(Fs(v).m_race) /\ Utf8(Fs(v).m_hero)
ListAll(Test(_), v) == IsNothing(v) \/ \A i \in 2..Len(v) : Test(v[i])
DetailsValid(v) ==
  LET f == Fs(v)
  IN /\ \A n \in {"m_title", "m_difficulty", "m_description", "m_image_file_path", "m_map_file_name"} : Utf8(f[n])
     /\ Utf8(Fs(f.m_thumbnail).m_file)
     /\ ListAll(PlayerUtf8, f.m_player_list) /\ ListAll(Utf8, f.m_mod_paths)
DetailsOf(v) ==
  LET f == Shorten(v)
  IN Rec([f EXCEPT !.player_list = ListOrEmpty(Player, @), !.cache_handles = ListOrEmpty(Hex, @),
                   !.mod_paths = ListOrEmpty(LAMBDA x : x, @), !.thumbnail = Rec(Shorten(@)), !.game_speed = BareText[@[2]]])

(*--------------------------------- lobby ----------------------------------*)
SpeedNo == [ESlower |-> 0, ESlow |-> 1, ENormal |-> 2, EFast |-> 3, EFaster |-> 4]
UserInit(v) ==
  LET f == Shorten(v)
  IN Rec([f EXCEPT !.race_preference = Fs(@).m_race, !.team_preference = Fs(@).m_team,
                   !.clan_logo = Maybe(Numbers8, @), !.observe = NumOf(ObserveNo[@[2]])])
SlotDesc(v) == LET f == Shorten(v) IN Rec([f EXCEPT !.allowed_controls = Numbers8(@), !.allowed_ai_builds = Numbers8(@)])
GameDesc(v) ==
  LET f == Shorten(v)
  IN Rec([f EXCEPT !.game_options = ShortRec(@), !.game_speed = NumOf(SpeedNo[@[2]]), !.game_type = VariantText[@[2]],
                   !.slot_descriptions = MapList(SlotDesc, @), !.cache_handles = MapList(Hex, @)])
(* What lobby slots of the older protocol do not have yet. *)
NewerSlotFields == [brutal_plus_difficulty |-> Zero, retry_mutation_indexes |-> ListOf(<<>>), a_c_enemy_race |-> Zero,
                    a_c_enemy_wave_type |-> Zero, selected_commander_prestige |-> Zero]
Slot(v) ==
  LET f == Shorten(v) @@ NewerSlotFields
  IN Rec([f EXCEPT !.color_pref = Fs(@).m_color, !.race_pref = Fs(@).m_race, !.observe = NumOf(ObserveNo[@[2]]),
                   !.reward_overrides = MapList(ShortRec, @)])
Lobby(v) == LET f == Shorten(v) IN Rec([f EXCEPT !.phase = VariantText[@[2]], !.slots = MapList(Slot, @)])
UserUtf8(v) == \A n \in {"m_name", "m_clan_tag", "m_hero", "m_skin", "m_mount", "m_toon_handle"} : Utf8(Fs(v)[n])
SlotUtf8(v) == /\ \A n \in {"m_hero", "m_skin", "m_mount", "m_toon_handle", "m_commander"} : Utf8(Fs(v)[n])
               /\ ListAll(Utf8, Fs(v).m_artifacts)
SyncOf(v) == Fs(v).m_sync_lobby_state
InitValid(v) ==
  LET s == Fs(SyncOf(v))
  IN /\ ListAll(UserUtf8, s.m_user_initial_data)
     /\ \A n \in {"m_game_cache_name", "m_map_file_name", "m_map_author_name"} : Utf8(Fs(s.m_game_description)[n])
     /\ ListAll(SlotUtf8, Fs(s.m_lobby_state).m_slots)
InitOf(v) ==
  LET s == Fs(SyncOf(v))
  IN Rec([sync_lobby_state |->
            Rec([user_initial_data |-> MapList(UserInit, s.m_user_initial_data),
                 game_description |-> GameDesc(s.m_game_description),
                 lobby_state |-> Lobby(s.m_lobby_state)])])

(*--------------------------------- header ---------------------------------*)
(* Digests: the deprecated form is a list of numbers. *)
Digest(v) == Rec([m_data_deprecated |-> Maybe(J, Fs(v).m_data_deprecated), m_data |-> Fs(v).m_data])
HeaderOf(v) == Rec([n \in DOMAIN Fs(v) |-> IF n \in {"m_ngdp_root_key", "m_replay_compatibility_hash"} THEN Digest(Fs(v)[n]) ELSE J(Fs(v)[n])])
=============================================================================
