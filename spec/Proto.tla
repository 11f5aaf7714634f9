------------------------------- MODULE Proto -------------------------------
(***************************************************************************)
(* The wire layout of the two protocol generations that the library reads.  *)
(*                                                                         *)
(* Names starting with A_ are byte-aligned ("versioned") types, names       *)
(* starting with B_ are bit-packed types.  The meaning of the constructors  *)
(* is given by the decoder in Wire.tla.                                     *)
(*                                                                         *)
(* Transcribed from the generated decoders with lib/mkproto.py and          *)
(* validated against the four replays in the repository.                    *)
(***************************************************************************)
EXTENDS TLC

\* references to other types
R(n) == [k |-> "ref", n |-> n]

\* byte-aligned, every value is preceded by its tag
I(r)      == [k |-> "int", r |-> r]            \* integer that must fit into r
Blob      == [k |-> "blob"]
Bool      == [k |-> "bool"]
FourCC    == [k |-> "fourcc"]
Opt(t)    == [k |-> "opt", t |-> t]
Arr(t)    == [k |-> "arr", t |-> t]
Struct(f) == [k |-> "struct", f |-> f]
F(g, n, t, d) == [g |-> g, n |-> n, t |-> t, d |-> d]  \* tag, name, type, when missing
Enum(v)   == [k |-> "enum", v |-> v]
Choice(v) == [k |-> "choice", v |-> v]
V(g, n)      == [g |-> g, n |-> n, t |-> [k |-> "unit"]]
VT(g, n, t)  == [g |-> g, n |-> n, t |-> t]

\* bit-packed, positions and widths are implied
P(o, w)     == [k |-> "pint", o |-> o, w |-> w]   \* w bits plus the offset o
BBool       == [k |-> "bbool"]
Byte        == [k |-> "byte"]
BFourCC     == [k |-> "bfourcc"]
Null        == [k |-> "null"]
BOpt(t)     == [k |-> "bopt", t |-> t]
L(w, t)     == [k |-> "list", w |-> w, t |-> t]   \* w bits of length, then the elements
Str(w)      == [k |-> "str", w |-> w]             \* w bits of length, alignment, bytes
Fix(n)      == [k |-> "fix", n |-> n]             \* alignment, n bytes
BitsNum(w)  == [k |-> "bitsnum", w |-> w]         \* w bits of length, so many bits as a number
BitsArr(w)  == [k |-> "bitsarr", w |-> w]         \* w bits of length, so many bits in bytes
BStruct(f)  == [k |-> "bstruct", f |-> f]
G(n, t)     == [n |-> n, t |-> t]
BEnum(w, v) == [k |-> "benum", w |-> w, v |-> v]

Schema87702 == [
  A_SVarUint32 |-> Choice(<<
      VT(0, "MUint6", I("u8")),
      VT(1, "MUint14", I("u32")),
      VT(2, "MUint22", I("u32")),
      VT(3, "MUint32", I("u32"))>>),
  A_ReplayTrackerEEventId |-> Enum(<<
      VT(0, "EPlayerStats", R("A_ReplayTrackerSPlayerStatsEvent")),
      VT(1, "EUnitBorn", R("A_ReplayTrackerSUnitBornEvent")),
      VT(2, "EUnitDied", R("A_ReplayTrackerSUnitDiedEvent")),
      VT(3, "EUnitOwnerChange", R("A_ReplayTrackerSUnitOwnerChangeEvent")),
      VT(4, "EUnitTypeChange", R("A_ReplayTrackerSUnitTypeChangeEvent")),
      VT(5, "EUpgrade", R("A_ReplayTrackerSUpgradeEvent")),
      VT(6, "EUnitInit", R("A_ReplayTrackerSUnitInitEvent")),
      VT(7, "EUnitDone", R("A_ReplayTrackerSUnitDoneEvent")),
      VT(8, "EUnitPosition", R("A_ReplayTrackerSUnitPositionsEvent")),
      VT(9, "EPlayerSetup", R("A_ReplayTrackerSPlayerSetupEvent"))>>),
  A_ReplayTrackerSPlayerStatsEvent |-> Struct(<<
      F(0, "m_player_id", I("u8"), "req"),
      F(1, "m_stats", R("A_ReplayTrackerSPlayerStats"), "req")>>),
  A_ReplayTrackerSPlayerStats |-> Struct(<<
      F(0, "m_score_value_minerals_current", I("i32"), "req"),
      F(1, "m_score_value_vespene_current", I("i32"), "req"),
      F(2, "m_score_value_minerals_collection_rate", I("i32"), "req"),
      F(3, "m_score_value_vespene_collection_rate", I("i32"), "req"),
      F(4, "m_score_value_workers_active_count", I("i32"), "req"),
      F(5, "m_score_value_minerals_used_in_progress_army", I("i32"), "req"),
      F(6, "m_score_value_minerals_used_in_progress_economy", I("i32"), "req"),
      F(7, "m_score_value_minerals_used_in_progress_technology", I("i32"), "req"),
      F(8, "m_score_value_vespene_used_in_progress_army", I("i32"), "req"),
      F(9, "m_score_value_vespene_used_in_progress_economy", I("i32"), "req"),
      F(10, "m_score_value_vespene_used_in_progress_technology", I("i32"), "req"),
      F(11, "m_score_value_minerals_used_current_army", I("i32"), "req"),
      F(12, "m_score_value_minerals_used_current_economy", I("i32"), "req"),
      F(13, "m_score_value_minerals_used_current_technology", I("i32"), "req"),
      F(14, "m_score_value_vespene_used_current_army", I("i32"), "req"),
      F(15, "m_score_value_vespene_used_current_economy", I("i32"), "req"),
      F(16, "m_score_value_vespene_used_current_technology", I("i32"), "req"),
      F(17, "m_score_value_minerals_lost_army", I("i32"), "req"),
      F(18, "m_score_value_minerals_lost_economy", I("i32"), "req"),
      F(19, "m_score_value_minerals_lost_technology", I("i32"), "req"),
      F(20, "m_score_value_vespene_lost_army", I("i32"), "req"),
      F(21, "m_score_value_vespene_lost_economy", I("i32"), "req"),
      F(22, "m_score_value_vespene_lost_technology", I("i32"), "req"),
      F(23, "m_score_value_minerals_killed_army", I("i32"), "req"),
      F(24, "m_score_value_minerals_killed_economy", I("i32"), "req"),
      F(25, "m_score_value_minerals_killed_technology", I("i32"), "req"),
      F(26, "m_score_value_vespene_killed_army", I("i32"), "req"),
      F(27, "m_score_value_vespene_killed_economy", I("i32"), "req"),
      F(28, "m_score_value_vespene_killed_technology", I("i32"), "req"),
      F(29, "m_score_value_food_used", I("i32"), "req"),
      F(30, "m_score_value_food_made", I("i32"), "req"),
      F(31, "m_score_value_minerals_used_active_forces", I("i32"), "req"),
      F(32, "m_score_value_vespene_used_active_forces", I("i32"), "req"),
      F(33, "m_score_value_minerals_friendly_fire_army", I("i32"), "req"),
      F(34, "m_score_value_minerals_friendly_fire_economy", I("i32"), "req"),
      F(35, "m_score_value_minerals_friendly_fire_technology", I("i32"), "req"),
      F(36, "m_score_value_vespene_friendly_fire_army", I("i32"), "req"),
      F(37, "m_score_value_vespene_friendly_fire_economy", I("i32"), "req"),
      F(38, "m_score_value_vespene_friendly_fire_technology", I("i32"), "req")>>),
  A_ReplayTrackerSUnitBornEvent |-> Struct(<<
      F(0, "m_unit_tag_index", I("u32"), "req"),
      F(1, "m_unit_tag_recycle", I("u32"), "req"),
      F(2, "m_unit_type_name", Blob, "req"),
      F(3, "m_control_player_id", I("u8"), "req"),
      F(4, "m_upkeep_player_id", I("u8"), "req"),
      F(5, "m_x", I("u8"), "req"),
      F(6, "m_y", I("u8"), "req"),
      F(7, "m_creator_unit_tag_index", Opt(I("u32")), "opt"),
      F(8, "m_creator_unit_tag_recycle", Opt(I("u32")), "opt"),
      F(9, "m_creator_ability_name", Opt(Blob), "opt")>>),
  A_ReplayTrackerSUnitDiedEvent |-> Struct(<<
      F(0, "m_unit_tag_index", I("u32"), "req"),
      F(1, "m_unit_tag_recycle", I("u32"), "req"),
      F(2, "m_killer_player_id", Opt(I("u8")), "opt"),
      F(3, "m_x", I("u8"), "req"),
      F(4, "m_y", I("u8"), "req"),
      F(5, "m_killer_unit_tag_index", Opt(I("u32")), "opt"),
      F(6, "m_killer_unit_tag_recycle", Opt(I("u32")), "opt")>>),
  A_ReplayTrackerSUnitOwnerChangeEvent |-> Struct(<<
      F(0, "m_unit_tag_index", I("u32"), "req"),
      F(1, "m_unit_tag_recycle", I("u32"), "req"),
      F(2, "m_control_player_id", I("u8"), "req"),
      F(3, "m_upkeep_player_id", I("u8"), "req")>>),
  A_ReplayTrackerSUnitTypeChangeEvent |-> Struct(<<
      F(0, "m_unit_tag_index", I("u32"), "req"),
      F(1, "m_unit_tag_recycle", I("u32"), "req"),
      F(2, "m_unit_type_name", Blob, "req")>>),
  A_ReplayTrackerSUpgradeEvent |-> Struct(<<
      F(0, "m_player_id", I("u8"), "req"),
      F(1, "m_upgrade_type_name", Blob, "req"),
      F(2, "m_count", I("i32"), "req")>>),
  A_ReplayTrackerSUnitInitEvent |-> Struct(<<
      F(0, "m_unit_tag_index", I("u32"), "req"),
      F(1, "m_unit_tag_recycle", I("u32"), "req"),
      F(2, "m_unit_type_name", Blob, "req"),
      F(3, "m_control_player_id", I("u8"), "req"),
      F(4, "m_upkeep_player_id", I("u8"), "req"),
      F(5, "m_x", I("u8"), "req"),
      F(6, "m_y", I("u8"), "req")>>),
  A_ReplayTrackerSUnitDoneEvent |-> Struct(<<
      F(0, "m_unit_tag_index", I("u32"), "req"),
      F(1, "m_unit_tag_recycle", I("u32"), "req")>>),
  A_ReplayTrackerSUnitPositionsEvent |-> Struct(<<
      F(0, "m_first_unit_index", I("u32"), "req"),
      F(1, "m_items", Arr(I("i32")), "req")>>),
  A_ReplayTrackerSPlayerSetupEvent |-> Struct(<<
      F(0, "m_player_id", I("u8"), "req"),
      F(1, "m_type", I("u32"), "req"),
      F(2, "m_user_id", Opt(I("u32")), "opt"),
      F(3, "m_slot_id", Opt(I("u32")), "opt")>>),
  A_GameSDetails |-> Struct(<<
      F(0, "m_player_list", Opt(Arr(R("A_GameSPlayerDetails"))), "opt"),
      F(1, "m_title", Blob, "req"),
      F(2, "m_difficulty", Blob, "req"),
      F(3, "m_thumbnail", R("A_GameSThumbnail"), "req"),
      F(4, "m_is_blizzard_map", Bool, "req"),
      F(5, "m_time_utc", I("i64"), "req"),
      F(6, "m_time_local_offset", I("i64"), "req"),
      F(16, "m_restart_as_transition_map", Opt(Bool), "opt"),
      F(17, "m_disable_recover_game", Bool, "req"),
      F(7, "m_description", Blob, "req"),
      F(8, "m_image_file_path", Blob, "req"),
      F(15, "m_campaign_index", I("u8"), "req"),
      F(9, "m_map_file_name", Blob, "req"),
      F(10, "m_cache_handles", Opt(Arr(Blob)), "opt"),
      F(11, "m_mini_save", Bool, "req"),
      F(12, "m_game_speed", R("A_GameEGameSpeed"), "req"),
      F(13, "m_default_difficulty", I("u32"), "req"),
      F(14, "m_mod_paths", Opt(Arr(Blob)), "opt")>>),
  A_GameSPlayerDetails |-> Struct(<<
      F(0, "m_name", Blob, "req"),
      F(1, "m_toon", R("A_GameSToonNameDetails"), "req"),
      F(2, "m_race", Blob, "req"),
      F(3, "m_color", R("A_GameSColor"), "req"),
      F(4, "m_control", I("u8"), "req"),
      F(5, "m_team_id", I("u8"), "req"),
      F(6, "m_handicap", I("u32"), "req"),
      F(7, "m_observe", R("A_EObserve"), "req"),
      F(8, "m_result", R("A_GameEResultDetails"), "req"),
      F(9, "m_working_set_slot_id", Opt(I("u8")), "opt"),
      F(10, "m_hero", Blob, "req")>>),
  A_GameSToonNameDetails |-> Struct(<<
      F(0, "m_region", I("u8"), "req"),
      F(1, "m_program_id", FourCC, "req"),
      F(2, "m_realm", I("u32"), "req"),
      F(3, "m_name", Blob, "empty"),
      F(4, "m_id", I("u64"), "req")>>),
  A_GameSColor |-> Struct(<<
      F(0, "m_a", I("u8"), "req"),
      F(1, "m_r", I("u8"), "req"),
      F(2, "m_g", I("u8"), "req"),
      F(3, "m_b", I("u8"), "req")>>),
  A_EObserve |-> Enum(<<
      V(0, "ENone"),
      V(1, "ESpectator"),
      V(2, "EReferee")>>),
  A_GameEResultDetails |-> Enum(<<
      V(0, "EUndecided"),
      V(1, "EWin"),
      V(2, "ELoss"),
      V(3, "ETie")>>),
  A_GameSThumbnail |-> Struct(<<
      F(0, "m_file", Blob, "req")>>),
  A_GameEGameSpeed |-> Enum(<<
      V(0, "ESlower"),
      V(1, "ESlow"),
      V(2, "ENormal"),
      V(3, "EFast"),
      V(4, "EFaster")>>),
  A_ReplaySHeader |-> Struct(<<
      F(0, "m_signature", Blob, "req"),
      F(1, "m_version", R("A_SVersion"), "req"),
      F(2, "m_type", I("u8"), "req"),
      F(3, "m_elapsed_game_loops", I("u32"), "req"),
      F(4, "m_use_scaled_time", Bool, "req"),
      F(5, "m_ngdp_root_key", R("A_Smd5"), "req"),
      F(6, "m_data_build_num", I("u32"), "req"),
      F(7, "m_replay_compatibility_hash", R("A_Smd5"), "req"),
      F(8, "m_ngdp_root_key_is_dev_data", Bool, "req")>>),
  A_SVersion |-> Struct(<<
      F(0, "m_flags", I("u8"), "req"),
      F(1, "m_major", I("u8"), "req"),
      F(2, "m_minor", I("u8"), "req"),
      F(3, "m_revision", I("u8"), "req"),
      F(4, "m_build", I("u32"), "req"),
      F(5, "m_base_build", I("u32"), "req")>>),
  A_Smd5 |-> Struct(<<
      F(0, "m_data_deprecated", Opt(Arr(I("u8"))), "opt"),
      F(1, "m_data", Blob, "req")>>),
  B_SVarUint32 |-> BEnum(2, <<VT(0, "MUint6", R("B_Uint6")),
      VT(1, "MUint14", R("B_Uint14")),
      VT(2, "MUint22", R("B_Uint22")),
      VT(3, "MUint32", R("B_Uint32"))>>),
  B_Uint6 |-> P("0", 6),
  B_Uint14 |-> P("0", 14),
  B_Uint22 |-> P("0", 22),
  B_Uint32 |-> P("0", 32),
  B_ReplaySGameUserId |-> BStruct(<<
      G("m_user_id", P("0", 5))>>),
  B_GameEEventId |-> BEnum(7, <<VT(0, "ESetLobbySlot", R("B_GameSSetLobbySlotEvent")),
      VT(1, "EDropUser", R("B_GameSDropUserEvent")),
      VT(2, "EStartGame", R("B_GameSStartGameEvent")),
      VT(3, "EDropOurselves", R("B_GameSDropOurselvesEvent")),
      VT(4, "EUserFinishedLoading", R("B_GameSUserFinishedLoadingEvent")),
      VT(5, "EUserFinishedLoadingSync", R("B_GameSUserFinishedLoadingSyncEvent")),
      VT(6, "ESetGameDuration", R("B_GameSSetGameDurationEvent")),
      VT(7, "EUserOptions", R("B_GameSUserOptionsEvent")),
      VT(114, "EPickMapTag", R("B_GameSPickMapTagEvent")),
      VT(8, "ETurn", R("B_GameSTurnEvent")),
      VT(9, "EBankFile", R("B_GameSBankFileEvent")),
      VT(10, "EBankSection", R("B_GameSBankSectionEvent")),
      VT(11, "EBankKey", R("B_GameSBankKeyEvent")),
      VT(12, "EBankValue", R("B_GameSBankValueEvent")),
      VT(13, "EBankSignature", R("B_GameSBankSignatureEvent")),
      VT(14, "ECameraSave", R("B_GameSCameraSaveEvent")),
      VT(15, "EPauseGame", R("B_GameSPauseGameEvent")),
      VT(16, "EUnpauseGame", R("B_GameSUnpauseGameEvent")),
      VT(17, "ESingleStepGame", R("B_GameSSingleStepGameEvent")),
      VT(18, "ESetGameSpeed", R("B_GameSSetGameSpeedEvent")),
      VT(19, "EAddGameSpeed", R("B_GameSAddGameSpeedEvent")),
      VT(20, "EReplayJump", R("B_GameSReplayJumpEvent")),
      VT(21, "ESaveGame", R("B_GameSSaveGameEvent")),
      VT(22, "ESaveGameDone", R("B_GameSSaveGameDoneEvent")),
      VT(23, "ELoadGameDone", R("B_GameSLoadGameDoneEvent")),
      VT(24, "ESessionCheat", R("B_GameSSessionCheatEvent")),
      VT(25, "ECommandManagerReset", R("B_GameSCommandManagerResetEvent")),
      VT(26, "EGameCheat", R("B_GameSGameCheatEvent")),
      VT(27, "ECmd", R("B_GameSCmdEvent")),
      VT(28, "ESelectionDelta", R("B_GameSSelectionDeltaEvent")),
      VT(29, "EControlGroupUpdate", R("B_GameSControlGroupUpdateEvent")),
      VT(30, "ESelectionSyncCheck", R("B_GameSSelectionSyncCheckEvent")),
      VT(31, "EResourceTrade", R("B_GameSResourceTradeEvent")),
      VT(32, "ETriggerChatMessage", R("B_GameSTriggerChatMessageEvent")),
      VT(33, "EAiCommunicate", R("B_GameSaiCommunicateEvent")),
      VT(34, "ESetAbsoluteGameSpeed", R("B_GameSSetAbsoluteGameSpeedEvent")),
      VT(35, "EAddAbsoluteGameSpeed", R("B_GameSAddAbsoluteGameSpeedEvent")),
      VT(36, "ETriggerPing", R("B_GameSTriggerPingEvent")),
      VT(37, "EBroadcastCheat", R("B_GameSBroadcastCheatEvent")),
      VT(38, "EAlliance", R("B_GameSAllianceEvent")),
      VT(39, "EUnitClick", R("B_GameSUnitClickEvent")),
      VT(40, "EUnitHighlight", R("B_GameSUnitHighlightEvent")),
      VT(41, "ETriggerReplySelected", R("B_GameSTriggerReplySelectedEvent")),
      VT(42, "EHijackReplaySession", R("B_GameSHijackReplaySessionEvent")),
      VT(43, "EHijackReplayGame", R("B_GameSHijackReplayGameEvent")),
      VT(44, "ETriggerSkipped", R("B_GameSTriggerSkippedEvent")),
      VT(45, "ETriggerSoundLengthQuery", R("B_GameSTriggerSoundLengthQueryEvent")),
      VT(46, "ETriggerSoundOffset", R("B_GameSTriggerSoundOffsetEvent")),
      VT(47, "ETriggerTransmissionOffset", R("B_GameSTriggerTransmissionOffsetEvent")),
      VT(48, "ETriggerTransmissionComplete", R("B_GameSTriggerTransmissionCompleteEvent")),
      VT(49, "ECameraUpdate", R("B_GameSCameraUpdateEvent")),
      VT(50, "ETriggerAbortMission", R("B_GameSTriggerAbortMissionEvent")),
      VT(51, "ETriggerPurchaseMade", R("B_GameSTriggerPurchaseMadeEvent")),
      VT(52, "ETriggerPurchaseExit", R("B_GameSTriggerPurchaseExitEvent")),
      VT(53, "ETriggerPlanetMissionLaunched", R("B_GameSTriggerPlanetMissionLaunchedEvent")),
      VT(54, "ETriggerPlanetPanelCanceled", R("B_GameSTriggerPlanetPanelCanceledEvent")),
      VT(55, "ETriggerDialogControl", R("B_GameSTriggerDialogControlEvent")),
      VT(56, "ETriggerSoundLengthSync", R("B_GameSTriggerSoundLengthSyncEvent")),
      VT(57, "ETriggerConversationSkipped", R("B_GameSTriggerConversationSkippedEvent")),
      VT(58, "ETriggerMouseClicked", R("B_GameSTriggerMouseClickedEvent")),
      VT(59, "ETriggerMouseMoved", R("B_GameSTriggerMouseMovedEvent")),
      VT(60, "EAchievementAwarded", R("B_GameSAchievementAwardedEvent")),
      VT(61, "ETriggerHotkeyPressed", R("B_GameSTriggerHotkeyPressedEvent")),
      VT(62, "ETriggerTargetModeUpdate", R("B_GameSTriggerTargetModeUpdateEvent")),
      VT(63, "ETriggerPlanetPanelPanelReplay", R("B_GameSTriggerPlanetPanelReplayEvent")),
      VT(64, "ETriggerSoundtrackDone", R("B_GameSTriggerSoundtrackDoneEvent")),
      VT(65, "ETriggerPlanetMissionSelected", R("B_GameSTriggerPlanetMissionSelectedEvent")),
      VT(66, "ETriggerKeyPressed", R("B_GameSTriggerKeyPressedEvent")),
      VT(67, "ETriggerMovieFunction", R("B_GameSTriggerMovieFunctionEvent")),
      VT(68, "ETriggerPlanetPanelPanelBirthComplete", R("B_GameSTriggerPlanetPanelBirthCompleteEvent")),
      VT(69, "ETriggerPlanetPanelPanelDeathComplete", R("B_GameSTriggerPlanetPanelDeathCompleteEvent")),
      VT(70, "EResourceRequest", R("B_GameSResourceRequestEvent")),
      VT(71, "EResourceRequestFulfill", R("B_GameSResourceRequestFulfillEvent")),
      VT(72, "EResourceRequestCancel", R("B_GameSResourceRequestCancelEvent")),
      VT(73, "ETriggerResearchPanelExit", R("B_GameSTriggerResearchPanelExitEvent")),
      VT(74, "ETriggerResearchPanelPurchase", R("B_GameSTriggerResearchPanelPurchaseEvent")),
      VT(75, "ETriggerResearchPanelSelectionChanged", R("B_GameSTriggerResearchPanelSelectionChangedEvent")),
      VT(76, "ETriggerCommandError", R("B_GameSTriggerCommandErrorEvent")),
      VT(77, "ETriggerMercenaryPanelExit", R("B_GameSTriggerMercenaryPanelExitEvent")),
      VT(78, "ETriggerMercenaryPanelPurchase", R("B_GameSTriggerMercenaryPanelPurchaseEvent")),
      VT(79, "ETriggerMercenaryPanelSelectionChanged", R("B_GameSTriggerMercenaryPanelSelectionChangedEvent")),
      VT(80, "ETriggerVictoryPanelExit", R("B_GameSTriggerVictoryPanelExitEvent")),
      VT(81, "ETriggerBattleReportPanelExit", R("B_GameSTriggerBattleReportPanelExitEvent")),
      VT(82, "ETriggerBattleReportPanelPlayMission", R("B_GameSTriggerBattleReportPanelPlayMissionEvent")),
      VT(83, "ETriggerBattleReportPanelPlayScene", R("B_GameSTriggerBattleReportPanelPlaySceneEvent")),
      VT(84, "ETriggerBattleReportSelectionChanged", R("B_GameSTriggerBattleReportPanelSelectionChangedEvent")),
      VT(85, "ETriggerVictoryPanelPlayMissionAgain", R("B_GameSTriggerVictoryPanelPlayMissionAgainEvent")),
      VT(86, "ETriggerMovieStarted", R("B_GameSTriggerMovieStartedEvent")),
      VT(87, "ETriggerMovieFinished", R("B_GameSTriggerMovieFinishedEvent")),
      VT(88, "EDecrementGameTimeRemaining", R("B_GameSDecrementGameTimeRemainingEvent")),
      VT(89, "ETriggerPortraitLoaded", R("B_GameSTriggerPortraitLoadedEvent")),
      VT(90, "ETriggerQueryDialogDismissed", R("B_GameSTriggerCustomDialogDismissedEvent")),
      VT(91, "ETriggerGameMenuItemSelected", R("B_GameSTriggerGameMenuItemSelectedEvent")),
      VT(92, "ETriggerMouseWheel", R("B_GameSTriggerMouseWheelEvent")),
      VT(93, "ETriggerPurchasePanelSelectedPurchaseItemChanged", R("B_GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent")),
      VT(94, "ETriggerPurchasePanelSelectedPurchaseCategoryChanged", R("B_GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent")),
      VT(95, "ETriggerButtonPressed", R("B_GameSTriggerButtonPressedEvent")),
      VT(96, "ETriggerGameCreditsFinished", R("B_GameSTriggerGameCreditsFinishedEvent")),
      VT(97, "ETriggerCutsceneBookmarkFired", R("B_GameSTriggerCutsceneBookmarkFiredEvent")),
      VT(98, "ETriggerCutsceneEndSceneFired", R("B_GameSTriggerCutsceneEndSceneFiredEvent")),
      VT(99, "ETriggerCutsceneConversationLine", R("B_GameSTriggerCutsceneConversationLineEvent")),
      VT(100, "ETriggerCutsceneConversationLineMissing", R("B_GameSTriggerCutsceneConversationLineMissingEvent")),
      VT(101, "EGameUserLeave", R("B_GameSGameUserLeaveEvent")),
      VT(102, "EGameUserJoin", R("B_GameSGameUserJoinEvent")),
      VT(103, "ECommandManagerState", R("B_GameSCommandManagerStateEvent")),
      VT(104, "ECmdUpdateTargetPoint", R("B_GameSCmdUpdateTargetPointEvent")),
      VT(105, "ECmdUpdateTargetUnit", R("B_GameSCmdUpdateTargetUnitEvent")),
      VT(106, "ETriggerAnimLengthQueryByName", R("B_GameSTriggerAnimLengthQueryByNameEvent")),
      VT(107, "ETriggerAnimLengthQueryByProps", R("B_GameSTriggerAnimLengthQueryByPropsEvent")),
      VT(108, "ETriggerAnimOffset", R("B_GameSTriggerAnimOffsetEvent")),
      VT(109, "ECatalogModify", R("B_GameSCatalogModifyEvent")),
      VT(110, "EHeroTalentTreeSelected", R("B_GameSHeroTalentTreeSelectedEvent")),
      VT(111, "ETriggerProfilerLoggingFinished", R("B_GameSTriggerProfilerLoggingFinishedEvent")),
      VT(112, "EHeroTalentTreeSelectionPanelToggled", R("B_GameSHeroTalentTreeSelectionPanelToggledEvent")),
      VT(113, "EMuteUserChanged", R("B_GameSMuteChatEvent")),
      VT(115, "EConvertToReplaySession", R("B_GameSConvertToReplaySessionEvent")),
      VT(116, "ESetSyncLoadingTime", R("B_GameSSetSyncLoadingTimeEvent")),
      VT(117, "ESetSyncPlayingTime", R("B_GameSSetSyncPlayingTimeEvent")),
      VT(118, "EPeerSetSyncLoadingTime", R("B_GameSPeerSetSyncLoadingTimeEvent")),
      VT(119, "EPeerSetSyncPlayingTime", R("B_GameSPeerSetSyncPlayingTimeEvent"))>>),
  B_GameSSetLobbySlotEvent |-> BStruct(<<
      G("m_slot_id", R("B_GameTLobbySlotId")),
      G("m_slot_change", R("B_GameSLobbySlotChange"))>>),
  B_GameTLobbySlotId |-> P("0", 4),
  B_GameSLobbySlotChange |-> BEnum(5, <<VT(0, "MControl", R("B_GameTControlId")),
      VT(1, "MUserId", BOpt(R("B_TUserId"))),
      VT(2, "MTeamId", R("B_GameTTeamId")),
      VT(3, "MColorPref", R("B_GameTColorPreference")),
      VT(4, "MRacePref", R("B_TRacePreference")),
      VT(5, "MDifficulty", R("B_GameTDifficulty")),
      VT(6, "MAiBuild", R("B_GameTaiBuild")),
      VT(7, "MHandicap", R("B_GameTHandicap")),
      VT(8, "MObserve", R("B_EObserve")),
      VT(9, "MLogoIndex", R("B_GameTPlayerLogoIndex")),
      VT(10, "MHero", R("B_CHeroHandle")),
      VT(11, "MSkin", R("B_CSkinHandle")),
      VT(12, "MMount", R("B_CMountHandle")),
      VT(13, "MLicenses", R("B_GameCLicenseArray")),
      VT(14, "MTandemLeaderId", BOpt(R("B_TUserId"))),
      VT(15, "MCommander", R("B_CCommanderHandle")),
      VT(16, "MCommanderLevel", R("B_Uint32")),
      VT(17, "MHasSilencePenalty", BBool),
      VT(18, "MTandemId", BOpt(R("B_TUserId"))),
      VT(19, "MCommanderMasteryLevel", R("B_Uint32")),
      VT(20, "MBrutalPlusDifficulty", R("B_Uint32")),
      VT(21, "MRetryMutationIndexes", R("B_GameCRetryMutationIndexArray")),
      VT(22, "MACEnemyRace", R("B_Uint32")),
      VT(23, "MACEnemyWaveType", R("B_Uint32")),
      VT(24, "MSelectedCommanderPrestige", R("B_Uint32"))>>),
  B_GameTControlId |-> P("0", 8),
  B_TUserId |-> P("0", 4),
  B_GameTTeamId |-> P("0", 4),
  B_GameTColorPreference |-> BStruct(<<
      G("m_color", BOpt(R("B_GameTColorId")))>>),
  B_GameTColorId |-> P("0", 5),
  B_TRacePreference |-> BStruct(<<
      G("m_race", BOpt(R("B_TRaceId")))>>),
  B_TRaceId |-> P("0", 8),
  B_GameTDifficulty |-> P("0", 6),
  B_GameTaiBuild |-> P("0", 8),
  B_GameTHandicap |-> R("B_Uint32"),
  B_EObserve |-> BEnum(2, <<V(0, "ENone"),
      V(1, "ESpectator"),
      V(2, "EReferee")>>),
  B_GameTPlayerLogoIndex |-> R("B_Uint32"),
  B_CHeroHandle |-> Str(9),
  B_CSkinHandle |-> Str(9),
  B_CMountHandle |-> Str(9),
  B_GameCLicenseArray |-> L(16, R("B_GameTLicense")),
  B_GameTLicense |-> R("B_Uint32"),
  B_CCommanderHandle |-> Str(9),
  B_GameCRetryMutationIndexArray |-> L(3, R("B_Uint32")),
  B_GameSDropUserEvent |-> BStruct(<<
      G("m_drop_session_user_id", R("B_TUserId")),
      G("m_reason", R("B_ELeaveReason"))>>),
  B_ELeaveReason |-> BEnum(4, <<V(0, "EUserLeft"),
      V(1, "EUserDropped"),
      V(2, "EUserBanned"),
      V(3, "EUserVictory"),
      V(4, "EUserDefeat"),
      V(5, "EUserTied"),
      V(6, "EUserDesynced"),
      V(7, "EUserOutOfTime"),
      V(8, "EWeWereUnresponsive"),
      V(9, "EWeContinuedAlone"),
      V(10, "EReplayDesynced"),
      V(11, "EUserTimeout"),
      V(12, "EUserDisconnected"),
      V(13, "EUnrecoverable"),
      V(14, "EUserCatchupDesynced"),
      V(15, "ETakeCommandDropped")>>),
  B_GameSStartGameEvent |-> BStruct(<<
      >>),
  B_GameSDropOurselvesEvent |-> BStruct(<<
      >>),
  B_GameSUserFinishedLoadingEvent |-> BStruct(<<
      >>),
  B_GameSUserFinishedLoadingSyncEvent |-> BStruct(<<
      >>),
  B_GameSSetGameDurationEvent |-> BStruct(<<
      G("m_game_duration", R("B_Uint32"))>>),
  B_GameSUserOptionsEvent |-> BStruct(<<
      G("m_game_fully_downloaded", BBool),
      G("m_development_cheats_enabled", BBool),
      G("m_test_cheats_enabled", BBool),
      G("m_multiplayer_cheats_enabled", BBool),
      G("m_sync_checksumming_enabled", BBool),
      G("m_is_map_to_map_transition", BBool),
      G("m_debug_pause_enabled", BBool),
      G("m_use_galaxy_asserts", BBool),
      G("m_platform_mac", BBool),
      G("m_camera_follow", BBool),
      G("m_base_build_num", R("B_Uint32")),
      G("m_build_num", R("B_Uint32")),
      G("m_version_flags", R("B_Uint32")),
      G("m_hotkey_profile", L(7, Byte))>>),
  B_GameSPickMapTagEvent |-> BStruct(<<
      G("m_picked_map_tag", R("B_Uint8"))>>),
  B_Uint8 |-> P("0", 8),
  B_GameSTurnEvent |-> BStruct(<<
      >>),
  B_GameSBankFileEvent |-> BStruct(<<
      G("m_name", L(7, Byte))>>),
  B_GameSBankSectionEvent |-> BStruct(<<
      G("m_name", L(6, Byte))>>),
  B_GameSBankKeyEvent |-> BStruct(<<
      G("m_name", L(6, Byte)),
      G("m_type", R("B_Uint32")),
      G("m_data", L(5, Byte))>>),
  B_GameSBankValueEvent |-> BStruct(<<
      G("m_type", R("B_Uint32")),
      G("m_name", L(6, Byte)),
      G("m_data", L(10, Byte))>>),
  B_GameSBankSignatureEvent |-> BStruct(<<
      G("m_signature", L(5, R("B_Uint8"))),
      G("m_toon_handle", R("B_CToonHandle"))>>),
  B_CToonHandle |-> Str(7),
  B_GameSCameraSaveEvent |-> BStruct(<<
      G("m_which", P("0", 3)),
      G("m_target", R("B_GameSPointMini"))>>),
  B_GameSPointMini |-> BStruct(<<
      G("x", R("B_GameTFixedMiniBitsUnsigned")),
      G("y", R("B_GameTFixedMiniBitsUnsigned"))>>),
  B_GameTFixedMiniBitsUnsigned |-> R("B_Uint16"),
  B_Uint16 |-> P("0", 16),
  B_GameSPauseGameEvent |-> BStruct(<<
      G("m_pause_type_index", R("B_Uint8"))>>),
  B_GameSUnpauseGameEvent |-> BStruct(<<
      G("m_pause_type_index", R("B_Uint8"))>>),
  B_GameSSingleStepGameEvent |-> BStruct(<<
      >>),
  B_GameSSetGameSpeedEvent |-> BStruct(<<
      G("m_speed", R("B_GameEGameSpeed"))>>),
  B_GameEGameSpeed |-> BEnum(3, <<V(0, "ESlower"),
      V(1, "ESlow"),
      V(2, "ENormal"),
      V(3, "EFast"),
      V(4, "EFaster")>>),
  B_GameSAddGameSpeedEvent |-> BStruct(<<
      G("m_delta", R("B_Int8"))>>),
  B_Int8 |-> P("-128", 8),
  B_GameSReplayJumpEvent |-> BStruct(<<
      G("m_replay_jump_game_loop", BOpt(R("B_Uint32")))>>),
  B_GameSSaveGameEvent |-> BStruct(<<
      G("m_file_name", R("B_CFilePath")),
      G("m_automatic", BBool),
      G("m_overwrite", BBool),
      G("m_name", L(6, Byte)),
      G("m_description", L(9, Byte))>>),
  B_CFilePath |-> Str(11),
  B_GameSSaveGameDoneEvent |-> BStruct(<<
      >>),
  B_GameSLoadGameDoneEvent |-> BStruct(<<
      >>),
  B_GameSSessionCheatEvent |-> BStruct(<<
      G("m_data", R("B_GameSCheatEventData"))>>),
  B_GameSCheatEventData |-> BStruct(<<
      G("m_point", R("B_GameSPoint")),
      G("m_time", R("B_Int32")),
      G("m_verb", R("B_GameCCheatString")),
      G("m_arguments", R("B_GameCCheatString"))>>),
  B_GameSPoint |-> BStruct(<<
      G("x", R("B_GameTFixedBits")),
      G("y", R("B_GameTFixedBits"))>>),
  B_GameTFixedBits |-> R("B_Int32"),
  B_Int32 |-> P("-2147483648", 32),
  B_GameCCheatString |-> Str(11),
  B_GameSCommandManagerResetEvent |-> BStruct(<<
      G("m_sequence", R("B_Uint32"))>>),
  B_GameSGameCheatEvent |-> BStruct(<<
      G("m_data", R("B_GameSCheatEventData"))>>),
  B_GameSCmdEvent |-> BStruct(<<
      G("m_cmd_flags", P("0", 27)),
      G("m_abil", BOpt(R("B_GameSCmdAbil"))),
      G("m_data", R("B_GameSCmdData")),
      G("m_sequence", P("1", 32)),
      G("m_other_unit", BOpt(R("B_GameTUnitTag"))),
      G("m_unit_group", BOpt(R("B_Uint32")))>>),
  B_GameSCmdAbil |-> BStruct(<<
      G("m_abil_link", R("B_GameTAbilLink")),
      G("m_abil_cmd_index", P("0", 5)),
      G("m_abil_cmd_data", BOpt(R("B_Uint8")))>>),
  B_GameTAbilLink |-> R("B_Uint16"),
  B_GameSCmdData |-> BEnum(2, <<VT(0, "None", Null),
      VT(1, "TargetPoint", R("B_GameSMapCoord3D")),
      VT(2, "TargetUnit", R("B_GameSCmdDataTargetUnit")),
      VT(3, "Data", R("B_Uint32"))>>),
  B_GameSMapCoord3D |-> BStruct(<<
      G("x", R("B_GameTMapCoordFixedBits")),
      G("y", R("B_GameTMapCoordFixedBits")),
      G("z", R("B_GameTFixedBits"))>>),
  B_GameTMapCoordFixedBits |-> P("0", 20),
  B_GameSCmdDataTargetUnit |-> BStruct(<<
      G("m_target_unit_flags", R("B_Uint16")),
      G("m_timer", R("B_Uint8")),
      G("m_tag", R("B_GameTUnitTag")),
      G("m_snapshot_unit_link", R("B_GameTUnitLink")),
      G("m_snapshot_control_player_id", BOpt(R("B_GameTPlayerId"))),
      G("m_snapshot_upkeep_player_id", BOpt(R("B_GameTPlayerId"))),
      G("m_snapshot_point", R("B_GameSMapCoord3D"))>>),
  B_GameTUnitTag |-> R("B_Uint32"),
  B_GameTUnitLink |-> R("B_Uint16"),
  B_GameTPlayerId |-> P("0", 4),
  B_GameSSelectionDeltaEvent |-> BStruct(<<
      G("m_control_group_id", R("B_GameTControlGroupId")),
      G("m_delta", R("B_GameSSelectionDelta"))>>),
  B_GameTControlGroupId |-> P("0", 4),
  B_GameSSelectionDelta |-> BStruct(<<
      G("m_subgroup_index", R("B_GameTSubgroupIndex")),
      G("m_remove_mask", R("B_GameSSelectionMask")),
      G("m_add_subgroups", L(9, R("B_GameSSelectionDeltaSubgroup"))),
      G("m_add_unit_tags", L(9, R("B_GameTUnitTag")))>>),
  B_GameTSubgroupIndex |-> P("0", 9),
  B_GameSSelectionMask |-> BEnum(2, <<VT(0, "None", Null),
      VT(1, "Mask", R("B_GameSelectionMaskType")),
      VT(2, "OneIndices", R("B_GameSelectionIndexArrayType")),
      VT(3, "ZeroIndices", R("B_GameSelectionIndexArrayType"))>>),
  B_GameSelectionMaskType |-> BitsArr(9),
  B_GameSelectionIndexArrayType |-> L(9, R("B_GameTSelectionIndex")),
  B_GameTSelectionIndex |-> P("0", 9),
  B_GameSSelectionDeltaSubgroup |-> BStruct(<<
      G("m_unit_link", R("B_GameTUnitLink")),
      G("m_subgroup_priority", R("B_GameTSubgroupPriority")),
      G("m_intra_subgroup_priority", R("B_GameTSubgroupPriority")),
      G("m_count", R("B_GameTSelectionCount"))>>),
  B_GameTSubgroupPriority |-> P("0", 8),
  B_GameTSelectionCount |-> P("0", 9),
  B_GameSControlGroupUpdateEvent |-> BStruct(<<
      G("m_control_group_index", R("B_GameTControlGroupIndex")),
      G("m_control_group_update", R("B_GameEControlGroupUpdate")),
      G("m_mask", R("B_GameSSelectionMask"))>>),
  B_GameTControlGroupIndex |-> P("0", 4),
  B_GameEControlGroupUpdate |-> BEnum(3, <<V(0, "ESet"),
      V(1, "EAppend"),
      V(2, "ERecall"),
      V(3, "EClear"),
      V(4, "ESetAndSteal"),
      V(5, "EAppendAndSteal")>>),
  B_GameSSelectionSyncCheckEvent |-> BStruct(<<
      G("m_control_group_id", R("B_GameTControlGroupId")),
      G("m_selection_sync_data", R("B_GameSSelectionSyncData"))>>),
  B_GameSSelectionSyncData |-> BStruct(<<
      G("m_count", R("B_GameTSelectionCount")),
      G("m_subgroup_count", R("B_GameTSubgroupCount")),
      G("m_active_subgroup_index", R("B_GameTSubgroupIndex")),
      G("m_unit_tags_checksum", R("B_GameTSyncChecksum")),
      G("m_subgroup_indices_checksum", R("B_GameTSyncChecksum")),
      G("m_subgroups_checksum", R("B_GameTSyncChecksum"))>>),
  B_GameTSubgroupCount |-> P("0", 9),
  B_GameTSyncChecksum |-> R("B_Uint32"),
  B_GameSResourceTradeEvent |-> BStruct(<<
      G("m_recipient_id", R("B_GameTPlayerId")),
      G("m_resources", L(3, R("B_Int32")))>>),
  B_GameSTriggerChatMessageEvent |-> BStruct(<<
      G("m_chat_message", R("B_GameCTriggerChatMessageString"))>>),
  B_GameCTriggerChatMessageString |-> Str(11),
  B_GameSaiCommunicateEvent |-> BStruct(<<
      G("m_beacon", R("B_Int8")),
      G("m_ally", R("B_Int8")),
      G("m_flags", R("B_Int8")),
      G("m_build", R("B_Int8")),
      G("m_target_unit_tag", R("B_GameTUnitTag")),
      G("m_target_unit_snapshot_unit_link", R("B_GameTUnitLink")),
      G("m_target_unit_snapshot_upkeep_player_id", R("B_Int8")),
      G("m_target_unit_snapshot_control_player_id", R("B_Int8")),
      G("m_target_point", R("B_GameSPoint3"))>>),
  B_GameSPoint3 |-> BStruct(<<
      G("x", R("B_GameTFixedBits")),
      G("y", R("B_GameTFixedBits")),
      G("z", R("B_GameTFixedBits"))>>),
  B_GameSSetAbsoluteGameSpeedEvent |-> BStruct(<<
      G("m_speed", R("B_GameEGameSpeed"))>>),
  B_GameSAddAbsoluteGameSpeedEvent |-> BStruct(<<
      G("m_delta", R("B_Int8"))>>),
  B_GameSTriggerPingEvent |-> BStruct(<<
      G("m_point", R("B_GameSPoint")),
      G("m_unit", R("B_GameTUnitTag")),
      G("m_unit_link", R("B_GameTUnitLink")),
      G("m_unit_control_player_id", BOpt(R("B_GameTPlayerId"))),
      G("m_unit_upkeep_player_id", BOpt(R("B_GameTPlayerId"))),
      G("m_unit_position", R("B_GameSMapCoord3D")),
      G("m_unit_is_under_construction", BBool),
      G("m_pinged_minimap", BBool),
      G("m_option", R("B_Int32"))>>),
  B_GameSBroadcastCheatEvent |-> BStruct(<<
      G("m_verb", R("B_GameCCheatString")),
      G("m_arguments", R("B_GameCCheatString"))>>),
  B_GameSAllianceEvent |-> BStruct(<<
      G("m_alliance", R("B_Uint32")),
      G("m_control", R("B_Uint32"))>>),
  B_GameSUnitClickEvent |-> BStruct(<<
      G("m_unit_tag", R("B_GameTUnitTag"))>>),
  B_GameSUnitHighlightEvent |-> BStruct(<<
      G("m_unit_tag", R("B_GameTUnitTag")),
      G("m_flags", R("B_Uint8"))>>),
  B_GameSTriggerReplySelectedEvent |-> BStruct(<<
      G("m_conversation_id", R("B_Int32")),
      G("m_reply_id", R("B_Int32"))>>),
  B_GameSHijackReplaySessionEvent |-> BStruct(<<
      G("m_user_infos", L(5, R("B_GameSHijackReplaySessionUserInfo"))),
      G("m_method", R("B_GameEHijackMethod"))>>),
  B_GameSHijackReplaySessionUserInfo |-> BStruct(<<
      G("m_session_user_id", R("B_TUserId")),
      G("m_add_new_game_user", BBool),
      G("m_game_user_id", R("B_TUserId"))>>),
  B_GameEHijackMethod |-> BEnum(1, <<V(0, "ERecover"),
      V(1, "ETakeCommand")>>),
  B_GameSHijackReplayGameEvent |-> BStruct(<<
      G("m_user_infos", L(5, R("B_GameSHijackReplayGameUserInfo"))),
      G("m_method", R("B_GameEHijackMethod"))>>),
  B_GameSHijackReplayGameUserInfo |-> BStruct(<<
      G("m_game_user_id", R("B_TUserId")),
      G("m_observe", R("B_EObserve")),
      G("m_name", R("B_CUserName")),
      G("m_toon_handle", BOpt(R("B_CToonHandle"))),
      G("m_clan_tag", BOpt(R("B_CClanTag"))),
      G("m_clan_logo", BOpt(R("B_GameCCacheHandle")))>>),
  B_CUserName |-> Str(8),
  B_CClanTag |-> Str(8),
  B_GameCCacheHandle |-> Fix(40),
  B_GameSTriggerSkippedEvent |-> BStruct(<<
      >>),
  B_GameSTriggerSoundLengthQueryEvent |-> BStruct(<<
      G("m_sound_hash", R("B_Uint32")),
      G("m_length", R("B_Uint32"))>>),
  B_GameSTriggerSoundOffsetEvent |-> BStruct(<<
      G("m_sound", R("B_GameTTriggerSoundTag"))>>),
  B_GameTTriggerSoundTag |-> R("B_Uint32"),
  B_GameSTriggerTransmissionOffsetEvent |-> BStruct(<<
      G("m_transmission_id", R("B_Int32")),
      G("m_thread", R("B_GameTTriggerThreadTag"))>>),
  B_GameTTriggerThreadTag |-> R("B_Uint32"),
  B_GameSTriggerTransmissionCompleteEvent |-> BStruct(<<
      G("m_transmission_id", R("B_Int32"))>>),
  B_GameSCameraUpdateEvent |-> BStruct(<<
      G("m_target", BOpt(R("B_GameSPointMini"))),
      G("m_distance", BOpt(R("B_GameTFixedMiniBitsUnsigned"))),
      G("m_pitch", BOpt(R("B_GameTFixedMiniBitsUnsigned"))),
      G("m_yaw", BOpt(R("B_GameTFixedMiniBitsUnsigned"))),
      G("m_reason", BOpt(R("B_Int8"))),
      G("m_follow", BBool)>>),
  B_GameSTriggerAbortMissionEvent |-> BStruct(<<
      >>),
  B_GameSTriggerPurchaseMadeEvent |-> BStruct(<<
      G("m_purchase_item_id", R("B_Int32"))>>),
  B_GameSTriggerPurchaseExitEvent |-> BStruct(<<
      >>),
  B_GameSTriggerPlanetMissionLaunchedEvent |-> BStruct(<<
      G("m_difficulty_level", R("B_Int32"))>>),
  B_GameSTriggerPlanetPanelCanceledEvent |-> BStruct(<<
      >>),
  B_GameSTriggerDialogControlEvent |-> BStruct(<<
      G("m_control_id", R("B_Int32")),
      G("m_event_type", R("B_Int32")),
      G("m_event_data", R("B_MEventData"))>>),
  B_MEventData |-> BEnum(3, <<VT(0, "None", Null),
      VT(1, "Checked", BBool),
      VT(2, "ValueChanged", R("B_Uint32")),
      VT(3, "SelectionChanged", R("B_Int32")),
      VT(4, "TextChanged", R("B_GameCChatString")),
      VT(5, "MouseButton", R("B_Uint32"))>>),
  B_GameCChatString |-> Str(11),
  B_GameSTriggerSoundLengthSyncEvent |-> BStruct(<<
      G("m_sync_info", R("B_GameSSyncSoundLength"))>>),
  B_GameSSyncSoundLength |-> BStruct(<<
      G("m_sound_hash", L(7, R("B_Uint32"))),
      G("m_length", L(7, R("B_Uint32")))>>),
  B_GameSTriggerConversationSkippedEvent |-> BStruct(<<
      G("m_skip_type", R("B_GameEConversationSkip"))>>),
  B_GameEConversationSkip |-> BEnum(1, <<V(0, "ESkipOneLine"),
      V(1, "ESkipAllLines")>>),
  B_GameSTriggerMouseClickedEvent |-> BStruct(<<
      G("m_button", R("B_Uint32")),
      G("m_down", BBool),
      G("m_pos_ui", R("B_GameSuiCoord")),
      G("m_pos_world", R("B_GameSMapCoord3D")),
      G("m_flags", R("B_Int8"))>>),
  B_GameSuiCoord |-> BStruct(<<
      G("x", R("B_GameTuiCoordX")),
      G("y", R("B_GameTuiCoordY"))>>),
  B_GameTuiCoordX |-> P("0", 11),
  B_GameTuiCoordY |-> P("0", 11),
  B_GameSTriggerMouseMovedEvent |-> BStruct(<<
      G("m_pos_ui", R("B_GameSuiCoord")),
      G("m_pos_world", R("B_GameSMapCoord3D")),
      G("m_flags", R("B_Int8"))>>),
  B_GameSAchievementAwardedEvent |-> BStruct(<<
      G("m_achievement_link", R("B_GameTAchievementLink"))>>),
  B_GameTAchievementLink |-> R("B_Uint16"),
  B_GameSTriggerHotkeyPressedEvent |-> BStruct(<<
      G("m_hotkey", R("B_Uint32")),
      G("m_down", BBool)>>),
  B_GameSTriggerTargetModeUpdateEvent |-> BStruct(<<
      G("m_abil_link", R("B_GameTAbilLink")),
      G("m_abil_cmd_index", P("0", 5)),
      G("m_state", R("B_Int8"))>>),
  B_GameSTriggerPlanetPanelReplayEvent |-> BStruct(<<
      >>),
  B_GameSTriggerSoundtrackDoneEvent |-> BStruct(<<
      G("m_soundtrack", R("B_Uint32"))>>),
  B_GameSTriggerPlanetMissionSelectedEvent |-> BStruct(<<
      G("m_planet_id", R("B_Int32"))>>),
  B_GameSTriggerKeyPressedEvent |-> BStruct(<<
      G("m_key", R("B_Int8")),
      G("m_flags", R("B_Int8"))>>),
  B_GameSTriggerMovieFunctionEvent |-> BStruct(<<
      G("m_function_name", L(7, Byte))>>),
  B_GameSTriggerPlanetPanelBirthCompleteEvent |-> BStruct(<<
      >>),
  B_GameSTriggerPlanetPanelDeathCompleteEvent |-> BStruct(<<
      >>),
  B_GameSResourceRequestEvent |-> BStruct(<<
      G("m_resources", L(3, R("B_Int32")))>>),
  B_GameSResourceRequestFulfillEvent |-> BStruct(<<
      G("m_fulfill_request_id", R("B_Int32"))>>),
  B_GameSResourceRequestCancelEvent |-> BStruct(<<
      G("m_cancel_request_id", R("B_Int32"))>>),
  B_GameSTriggerResearchPanelExitEvent |-> BStruct(<<
      >>),
  B_GameSTriggerResearchPanelPurchaseEvent |-> BStruct(<<
      >>),
  B_GameSTriggerResearchPanelSelectionChangedEvent |-> BStruct(<<
      G("m_research_item_id", R("B_Int32"))>>),
  B_GameSTriggerCommandErrorEvent |-> BStruct(<<
      G("m_error", R("B_Int32")),
      G("m_abil", BOpt(R("B_GameSCmdAbil")))>>),
  B_GameSTriggerMercenaryPanelExitEvent |-> BStruct(<<
      >>),
  B_GameSTriggerMercenaryPanelPurchaseEvent |-> BStruct(<<
      >>),
  B_GameSTriggerMercenaryPanelSelectionChangedEvent |-> BStruct(<<
      G("m_mercenary_id", R("B_Int32"))>>),
  B_GameSTriggerVictoryPanelExitEvent |-> BStruct(<<
      >>),
  B_GameSTriggerBattleReportPanelExitEvent |-> BStruct(<<
      >>),
  B_GameSTriggerBattleReportPanelPlayMissionEvent |-> BStruct(<<
      G("m_battle_report_id", R("B_Int32")),
      G("m_difficulty_level", R("B_Int32"))>>),
  B_GameSTriggerBattleReportPanelPlaySceneEvent |-> BStruct(<<
      G("m_battle_report_id", R("B_Int32"))>>),
  B_GameSTriggerBattleReportPanelSelectionChangedEvent |-> BStruct(<<
      G("m_battle_report_id", R("B_Int32"))>>),
  B_GameSTriggerVictoryPanelPlayMissionAgainEvent |-> BStruct(<<
      G("m_difficulty_level", R("B_Int32"))>>),
  B_GameSTriggerMovieStartedEvent |-> BStruct(<<
      >>),
  B_GameSTriggerMovieFinishedEvent |-> BStruct(<<
      >>),
  B_GameSDecrementGameTimeRemainingEvent |-> BStruct(<<
      G("m_decrement_seconds", R("B_Int32"))>>),
  B_GameSTriggerPortraitLoadedEvent |-> BStruct(<<
      G("m_portrait_id", R("B_Int32"))>>),
  B_GameSTriggerCustomDialogDismissedEvent |-> BStruct(<<
      G("m_result", R("B_Int32"))>>),
  B_GameSTriggerGameMenuItemSelectedEvent |-> BStruct(<<
      G("m_game_menu_item_index", R("B_Int32"))>>),
  B_GameSTriggerMouseWheelEvent |-> BStruct(<<
      G("m_wheel_spin", R("B_GameTFixedMiniBitsSigned")),
      G("m_flags", R("B_Int8"))>>),
  B_GameTFixedMiniBitsSigned |-> R("B_Int16"),
  B_Int16 |-> P("-32768", 16),
  B_GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent |-> BStruct(<<
      G("m_purchase_item_id", R("B_Int32"))>>),
  B_GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent |-> BStruct(<<
      G("m_purchase_category_id", R("B_Int32"))>>),
  B_GameSTriggerButtonPressedEvent |-> BStruct(<<
      G("m_button", R("B_GameTButtonLink"))>>),
  B_GameTButtonLink |-> R("B_Uint16"),
  B_GameSTriggerGameCreditsFinishedEvent |-> BStruct(<<
      >>),
  B_GameSTriggerCutsceneBookmarkFiredEvent |-> BStruct(<<
      G("m_cutscene_id", R("B_Int32")),
      G("m_bookmark_name", L(7, Byte))>>),
  B_GameSTriggerCutsceneEndSceneFiredEvent |-> BStruct(<<
      G("m_cutscene_id", R("B_Int32"))>>),
  B_GameSTriggerCutsceneConversationLineEvent |-> BStruct(<<
      G("m_cutscene_id", R("B_Int32")),
      G("m_conversation_line", L(7, Byte)),
      G("m_alt_conversation_line", L(7, Byte))>>),
  B_GameSTriggerCutsceneConversationLineMissingEvent |-> BStruct(<<
      G("m_cutscene_id", R("B_Int32")),
      G("m_conversation_line", L(7, Byte))>>),
  B_GameSGameUserLeaveEvent |-> BStruct(<<
      G("m_leave_reason", R("B_ELeaveReason"))>>),
  B_GameSGameUserJoinEvent |-> BStruct(<<
      G("m_observe", R("B_EObserve")),
      G("m_name", R("B_CUserName")),
      G("m_toon_handle", BOpt(R("B_CToonHandle"))),
      G("m_clan_tag", BOpt(R("B_CClanTag"))),
      G("m_clan_logo", BOpt(R("B_GameCCacheHandle"))),
      G("m_hijack", BBool),
      G("m_hijack_clone_game_user_id", BOpt(R("B_TUserId")))>>),
  B_GameSCommandManagerStateEvent |-> BStruct(<<
      G("m_state", R("B_GameECommandManagerState")),
      G("m_sequence", BOpt(P("1", 32)))>>),
  B_GameECommandManagerState |-> BEnum(2, <<V(0, "EFireDone"),
      V(1, "EFireOnce"),
      V(2, "EFireMany")>>),
  B_GameSCmdUpdateTargetPointEvent |-> BStruct(<<
      G("m_target", R("B_GameSMapCoord3D"))>>),
  B_GameSCmdUpdateTargetUnitEvent |-> BStruct(<<
      G("m_target", R("B_GameSCmdDataTargetUnit"))>>),
  B_GameSTriggerAnimLengthQueryByNameEvent |-> BStruct(<<
      G("m_query_id", R("B_GameTQueryId")),
      G("m_length_ms", R("B_Uint32")),
      G("m_finish_game_loop", R("B_Uint32"))>>),
  B_GameTQueryId |-> R("B_Uint16"),
  B_GameSTriggerAnimLengthQueryByPropsEvent |-> BStruct(<<
      G("m_query_id", R("B_GameTQueryId")),
      G("m_length_ms", R("B_Uint32"))>>),
  B_GameSTriggerAnimOffsetEvent |-> BStruct(<<
      G("m_anim_wait_query_id", R("B_GameTQueryId"))>>),
  B_GameSCatalogModifyEvent |-> BStruct(<<
      G("m_catalog", R("B_Uint8")),
      G("m_entry", R("B_Uint16")),
      G("m_field", L(9, Byte)),
      G("m_value", L(9, Byte))>>),
  B_GameSHeroTalentTreeSelectedEvent |-> BStruct(<<
      G("m_index", R("B_Uint32"))>>),
  B_GameSTriggerProfilerLoggingFinishedEvent |-> BStruct(<<
      >>),
  B_GameSHeroTalentTreeSelectionPanelToggledEvent |-> BStruct(<<
      G("m_shown", BBool)>>),
  B_GameSMuteChatEvent |-> BStruct(<<
      G("m_target_user_id", R("B_TUserId")),
      G("m_muted", BBool)>>),
  B_GameSConvertToReplaySessionEvent |-> BStruct(<<
      G("m_replay_jump_game_loop", BOpt(R("B_Int32")))>>),
  B_GameSSetSyncLoadingTimeEvent |-> BStruct(<<
      G("m_sync_time", R("B_Uint32"))>>),
  B_GameSSetSyncPlayingTimeEvent |-> BStruct(<<
      G("m_sync_time", R("B_Uint32"))>>),
  B_GameSPeerSetSyncLoadingTimeEvent |-> BStruct(<<
      G("m_sync_time", R("B_Uint32"))>>),
  B_GameSPeerSetSyncPlayingTimeEvent |-> BStruct(<<
      G("m_sync_time", R("B_Uint32"))>>),
  B_GameEMessageId |-> BEnum(4, <<VT(0, "EChat", R("B_GameSChatMessage")),
      VT(1, "EPing", R("B_GameSPingMessage")),
      VT(2, "ELoadingProgress", R("B_GameSLoadingProgressMessage")),
      VT(3, "EServerPing", R("B_GameSServerPingMessage")),
      VT(4, "EReconnectNotify", R("B_GameSReconnectNotifyMessage"))>>),
  B_GameSChatMessage |-> BStruct(<<
      G("m_recipient", R("B_GameEMessageRecipient")),
      G("m_string", R("B_GameCChatString"))>>),
  B_GameEMessageRecipient |-> BEnum(3, <<V(0, "EAll"),
      V(1, "EAllies"),
      V(2, "EIndividual"),
      V(3, "EBattlenet"),
      V(4, "EObservers")>>),
  B_GameSPingMessage |-> BStruct(<<
      G("m_recipient", R("B_GameEMessageRecipient")),
      G("m_point", R("B_GameSPoint"))>>),
  B_GameSLoadingProgressMessage |-> BStruct(<<
      G("m_progress", R("B_Int32"))>>),
  B_GameSServerPingMessage |-> BStruct(<<
      >>),
  B_GameSReconnectNotifyMessage |-> BStruct(<<
      G("m_status", R("B_EReconnectStatus"))>>),
  B_EReconnectStatus |-> BEnum(2, <<V(0, "EConnected"),
      V(1, "EReconnected"),
      V(2, "EDisconnected"),
      V(3, "EUnrecoverable")>>),
  B_ReplaySInitData |-> BStruct(<<
      G("m_sync_lobby_state", R("B_GameSLobbySyncState"))>>),
  B_GameSLobbySyncState |-> BStruct(<<
      G("m_user_initial_data", R("B_CUserInitialDataArray")),
      G("m_game_description", R("B_GameSGameDescription")),
      G("m_lobby_state", R("B_GameSLobbyState"))>>),
  B_CUserInitialDataArray |-> L(5, R("B_SUserInitialData")),
  B_SUserInitialData |-> BStruct(<<
      G("m_name", R("B_CUserName")),
      G("m_clan_tag", BOpt(R("B_CClanTag"))),
      G("m_clan_logo", BOpt(R("B_CCacheHandle"))),
      G("m_highest_league", BOpt(R("B_Uint8"))),
      G("m_combined_race_levels", BOpt(R("B_Uint32"))),
      G("m_random_seed", R("B_Uint32")),
      G("m_race_preference", R("B_TRacePreference")),
      G("m_team_preference", R("B_TTeamPreference")),
      G("m_test_map", BBool),
      G("m_test_auto", BBool),
      G("m_examine", BBool),
      G("m_custom_interface", BBool),
      G("m_test_type", R("B_Uint32")),
      G("m_observe", R("B_EObserve")),
      G("m_hero", R("B_CHeroHandle")),
      G("m_skin", R("B_CSkinHandle")),
      G("m_mount", R("B_CMountHandle")),
      G("m_toon_handle", R("B_CToonHandle")),
      G("m_scaled_rating", BOpt(R("B_Int32")))>>),
  B_CCacheHandle |-> Fix(40),
  B_TTeamPreference |-> BStruct(<<
      G("m_team", BOpt(R("B_Uint8")))>>),
  B_GameSGameDescription |-> BStruct(<<
      G("m_random_value", R("B_Uint32")),
      G("m_game_cache_name", R("B_GameCGameCacheName")),
      G("m_game_options", R("B_GameSGameOptions")),
      G("m_game_speed", R("B_GameEGameSpeed")),
      G("m_game_type", R("B_GameEGameType")),
      G("m_max_users", R("B_TUserCount")),
      G("m_max_observers", R("B_TUserCount")),
      G("m_max_players", R("B_GameTPlayerCount")),
      G("m_max_teams", R("B_GameTTeamCount")),
      G("m_max_colors", R("B_GameTColorCount")),
      G("m_max_races", R("B_TRaceCount")),
      G("m_max_controls", R("B_GameTControlCount")),
      G("m_map_size_x", R("B_Uint8")),
      G("m_map_size_y", R("B_Uint8")),
      G("m_map_file_sync_checksum", R("B_GameTSyncChecksum")),
      G("m_map_file_name", R("B_CFilePath")),
      G("m_map_author_name", R("B_GameCAuthorName")),
      G("m_mod_file_sync_checksum", R("B_GameTSyncChecksum")),
      G("m_slot_descriptions", R("B_GameSSlotDescriptions")),
      G("m_default_difficulty", R("B_GameTDifficulty")),
      G("m_default_ai_build", R("B_GameTaiBuild")),
      G("m_cache_handles", R("B_GameCCacheHandles")),
      G("m_has_extension_mod", BBool),
      G("m_has_non_blizzard_extension_mod", BBool),
      G("m_is_blizzard_map", BBool),
      G("m_is_premade_ffa", BBool),
      G("m_is_coop_mode", BBool),
      G("m_is_realtime_mode", BBool)>>),
  B_GameCGameCacheName |-> Str(11),
  B_GameSGameOptions |-> BStruct(<<
      G("m_lock_teams", BBool),
      G("m_teams_together", BBool),
      G("m_advanced_shared_control", BBool),
      G("m_random_races", BBool),
      G("m_battle_net", BBool),
      G("m_amm", BBool),
      G("m_competitive", BBool),
      G("m_practice", BBool),
      G("m_cooperative", BBool),
      G("m_no_victory_or_defeat", BBool),
      G("m_hero_duplicates_allowed", BBool),
      G("m_fog", R("B_GameEOptionFog")),
      G("m_observers", R("B_GameEOptionObservers")),
      G("m_user_difficulty", R("B_GameEOptionUserDifficulty")),
      G("m_client_debug_flags", R("B_GameEClientDebugFlags")),
      G("m_build_coach_enabled", BBool)>>),
  B_GameEOptionFog |-> BEnum(2, <<V(0, "EDefault"),
      V(1, "EHideTerrain"),
      V(2, "EMapExplored"),
      V(3, "EAlwaysVisible")>>),
  B_GameEOptionObservers |-> BEnum(2, <<V(0, "ENone"),
      V(1, "EOnJoin"),
      V(2, "EOnJoinAndDefeat"),
      V(3, "ERefereesOnJoin")>>),
  B_GameEOptionUserDifficulty |-> BEnum(2, <<V(0, "ENone"),
      V(1, "EGlobal"),
      V(2, "EIndividual")>>),
  B_GameEClientDebugFlags |-> P("0", 64),
  B_GameEGameType |-> BEnum(3, <<V(0, "EMelee"),
      V(1, "EFreeForAll"),
      V(2, "EUseSettings"),
      V(3, "EOneOnOne"),
      V(4, "ETwoTeamPlay"),
      V(5, "EThreeTeamPlay"),
      V(6, "EFourTeamPlay")>>),
  B_TUserCount |-> P("0", 5),
  B_GameTPlayerCount |-> P("0", 5),
  B_GameTTeamCount |-> P("1", 5),
  B_GameTColorCount |-> P("0", 6),
  B_TRaceCount |-> P("1", 8),
  B_GameTControlCount |-> P("0", 8),
  B_GameCAuthorName |-> Str(8),
  B_GameSSlotDescriptions |-> L(5, R("B_GameSSlotDescription")),
  B_GameSSlotDescription |-> BStruct(<<
      G("m_allowed_colors", R("B_GameCAllowedColors")),
      G("m_allowed_races", R("B_CAllowedRaces")),
      G("m_allowed_difficulty", R("B_GameCAllowedDifficulty")),
      G("m_allowed_controls", R("B_GameCAllowedControls")),
      G("m_allowed_observe_types", R("B_CAllowedObserveTypes")),
      G("m_allowed_ai_builds", R("B_GameCAllowedAiBuild"))>>),
  B_GameCAllowedColors |-> BitsNum(6),
  B_CAllowedRaces |-> BitsNum(8),
  B_GameCAllowedDifficulty |-> BitsNum(6),
  B_GameCAllowedControls |-> BitsArr(8),
  B_CAllowedObserveTypes |-> BitsNum(2),
  B_GameCAllowedAiBuild |-> BitsArr(8),
  B_GameCCacheHandles |-> L(6, R("B_GameCCacheHandle")),
  B_GameSLobbyState |-> BStruct(<<
      G("m_phase", R("B_GameEPhase")),
      G("m_max_users", R("B_TUserCount")),
      G("m_max_observers", R("B_TUserCount")),
      G("m_slots", R("B_GameCLobbySlotArray")),
      G("m_random_seed", R("B_Uint32")),
      G("m_host_user_id", BOpt(R("B_TUserId"))),
      G("m_is_single_player", BBool),
      G("m_picked_map_tag", R("B_Uint8")),
      G("m_game_duration", R("B_Uint32")),
      G("m_default_difficulty", R("B_GameTDifficulty")),
      G("m_default_ai_build", R("B_GameTaiBuild"))>>),
  B_GameEPhase |-> BEnum(3, <<V(0, "EInitializing"),
      V(1, "ELobby"),
      V(2, "EClosed"),
      V(3, "ELoading"),
      V(4, "EPlaying"),
      V(5, "EGameover")>>),
  B_GameCLobbySlotArray |-> L(5, R("B_GameSLobbySlot")),
  B_GameSLobbySlot |-> BStruct(<<
      G("m_control", R("B_GameTControlId")),
      G("m_user_id", BOpt(R("B_TUserId"))),
      G("m_team_id", R("B_GameTTeamId")),
      G("m_color_pref", R("B_GameTColorPreference")),
      G("m_race_pref", R("B_TRacePreference")),
      G("m_difficulty", R("B_GameTDifficulty")),
      G("m_ai_build", R("B_GameTaiBuild")),
      G("m_handicap", R("B_GameTHandicap")),
      G("m_observe", R("B_EObserve")),
      G("m_logo_index", R("B_GameTPlayerLogoIndex")),
      G("m_hero", R("B_CHeroHandle")),
      G("m_skin", R("B_CSkinHandle")),
      G("m_mount", R("B_CMountHandle")),
      G("m_artifacts", R("B_GameCArtifactArray")),
      G("m_working_set_slot_id", BOpt(R("B_Uint8"))),
      G("m_rewards", R("B_GameCRewardArray")),
      G("m_toon_handle", R("B_CToonHandle")),
      G("m_licenses", R("B_GameCLicenseArray")),
      G("m_tandem_leader_id", BOpt(R("B_TUserId"))),
      G("m_commander", R("B_CCommanderHandle")),
      G("m_commander_level", R("B_Uint32")),
      G("m_has_silence_penalty", BBool),
      G("m_tandem_id", BOpt(R("B_TUserId"))),
      G("m_commander_mastery_level", R("B_Uint32")),
      G("m_commander_mastery_talents", R("B_GameCCommanderMasteryTalentArray")),
      G("m_trophy_id", R("B_Uint32")),
      G("m_reward_overrides", R("B_GameCRewardOverrideArray")),
      G("m_brutal_plus_difficulty", R("B_Uint32")),
      G("m_retry_mutation_indexes", R("B_GameCRetryMutationIndexArray")),
      G("m_a_c_enemy_race", R("B_Uint32")),
      G("m_a_c_enemy_wave_type", R("B_Uint32")),
      G("m_selected_commander_prestige", R("B_Uint32"))>>),
  B_GameCArtifactArray |-> L(4, R("B_CArtifactHandle")),
  B_CArtifactHandle |-> Str(9),
  B_GameCRewardArray |-> L(17, R("B_GameTReward")),
  B_GameTReward |-> R("B_Uint32"),
  B_GameCCommanderMasteryTalentArray |-> L(3, R("B_Uint32")),
  B_GameCRewardOverrideArray |-> L(17, R("B_GameCRewardOverride")),
  B_GameCRewardOverride |-> BStruct(<<
      G("m_key", R("B_Uint32")),
      G("m_rewards", R("B_GameCRewardArray"))>>)
]

Changes75689 == [
  B_GameEEventId |-> BEnum(7, <<VT(0, "ESetLobbySlot", R("B_GameSSetLobbySlotEvent")),
      VT(1, "EDropUser", R("B_GameSDropUserEvent")),
      VT(2, "EStartGame", R("B_GameSStartGameEvent")),
      VT(3, "EDropOurselves", R("B_GameSDropOurselvesEvent")),
      VT(4, "EUserFinishedLoading", R("B_GameSUserFinishedLoadingEvent")),
      VT(5, "EUserFinishedLoadingSync", R("B_GameSUserFinishedLoadingSyncEvent")),
      VT(6, "ESetGameDuration", R("B_GameSSetGameDurationEvent")),
      VT(7, "EUserOptions", R("B_GameSUserOptionsEvent")),
      VT(114, "EPickMapTag", R("B_GameSPickMapTagEvent")),
      VT(8, "ETurn", R("B_GameSTurnEvent")),
      VT(9, "EBankFile", R("B_GameSBankFileEvent")),
      VT(10, "EBankSection", R("B_GameSBankSectionEvent")),
      VT(11, "EBankKey", R("B_GameSBankKeyEvent")),
      VT(12, "EBankValue", R("B_GameSBankValueEvent")),
      VT(13, "EBankSignature", R("B_GameSBankSignatureEvent")),
      VT(14, "ECameraSave", R("B_GameSCameraSaveEvent")),
      VT(15, "EPauseGame", R("B_GameSPauseGameEvent")),
      VT(16, "EUnpauseGame", R("B_GameSUnpauseGameEvent")),
      VT(17, "ESingleStepGame", R("B_GameSSingleStepGameEvent")),
      VT(18, "ESetGameSpeed", R("B_GameSSetGameSpeedEvent")),
      VT(19, "EAddGameSpeed", R("B_GameSAddGameSpeedEvent")),
      VT(20, "EReplayJump", R("B_GameSReplayJumpEvent")),
      VT(21, "ESaveGame", R("B_GameSSaveGameEvent")),
      VT(22, "ESaveGameDone", R("B_GameSSaveGameDoneEvent")),
      VT(23, "ELoadGameDone", R("B_GameSLoadGameDoneEvent")),
      VT(24, "ESessionCheat", R("B_GameSSessionCheatEvent")),
      VT(25, "ECommandManagerReset", R("B_GameSCommandManagerResetEvent")),
      VT(26, "EGameCheat", R("B_GameSGameCheatEvent")),
      VT(27, "ECmd", R("B_GameSCmdEvent")),
      VT(28, "ESelectionDelta", R("B_GameSSelectionDeltaEvent")),
      VT(29, "EControlGroupUpdate", R("B_GameSControlGroupUpdateEvent")),
      VT(30, "ESelectionSyncCheck", R("B_GameSSelectionSyncCheckEvent")),
      VT(31, "EResourceTrade", R("B_GameSResourceTradeEvent")),
      VT(32, "ETriggerChatMessage", R("B_GameSTriggerChatMessageEvent")),
      VT(33, "EAiCommunicate", R("B_GameSaiCommunicateEvent")),
      VT(34, "ESetAbsoluteGameSpeed", R("B_GameSSetAbsoluteGameSpeedEvent")),
      VT(35, "EAddAbsoluteGameSpeed", R("B_GameSAddAbsoluteGameSpeedEvent")),
      VT(36, "ETriggerPing", R("B_GameSTriggerPingEvent")),
      VT(37, "EBroadcastCheat", R("B_GameSBroadcastCheatEvent")),
      VT(38, "EAlliance", R("B_GameSAllianceEvent")),
      VT(39, "EUnitClick", R("B_GameSUnitClickEvent")),
      VT(40, "EUnitHighlight", R("B_GameSUnitHighlightEvent")),
      VT(41, "ETriggerReplySelected", R("B_GameSTriggerReplySelectedEvent")),
      VT(42, "EHijackReplaySession", R("B_GameSHijackReplaySessionEvent")),
      VT(43, "EHijackReplayGame", R("B_GameSHijackReplayGameEvent")),
      VT(44, "ETriggerSkipped", R("B_GameSTriggerSkippedEvent")),
      VT(45, "ETriggerSoundLengthQuery", R("B_GameSTriggerSoundLengthQueryEvent")),
      VT(46, "ETriggerSoundOffset", R("B_GameSTriggerSoundOffsetEvent")),
      VT(47, "ETriggerTransmissionOffset", R("B_GameSTriggerTransmissionOffsetEvent")),
      VT(48, "ETriggerTransmissionComplete", R("B_GameSTriggerTransmissionCompleteEvent")),
      VT(49, "ECameraUpdate", R("B_GameSCameraUpdateEvent")),
      VT(50, "ETriggerAbortMission", R("B_GameSTriggerAbortMissionEvent")),
      VT(51, "ETriggerPurchaseMade", R("B_GameSTriggerPurchaseMadeEvent")),
      VT(52, "ETriggerPurchaseExit", R("B_GameSTriggerPurchaseExitEvent")),
      VT(53, "ETriggerPlanetMissionLaunched", R("B_GameSTriggerPlanetMissionLaunchedEvent")),
      VT(54, "ETriggerPlanetPanelCanceled", R("B_GameSTriggerPlanetPanelCanceledEvent")),
      VT(55, "ETriggerDialogControl", R("B_GameSTriggerDialogControlEvent")),
      VT(56, "ETriggerSoundLengthSync", R("B_GameSTriggerSoundLengthSyncEvent")),
      VT(57, "ETriggerConversationSkipped", R("B_GameSTriggerConversationSkippedEvent")),
      VT(58, "ETriggerMouseClicked", R("B_GameSTriggerMouseClickedEvent")),
      VT(59, "ETriggerMouseMoved", R("B_GameSTriggerMouseMovedEvent")),
      VT(60, "EAchievementAwarded", R("B_GameSAchievementAwardedEvent")),
      VT(61, "ETriggerHotkeyPressed", R("B_GameSTriggerHotkeyPressedEvent")),
      VT(62, "ETriggerTargetModeUpdate", R("B_GameSTriggerTargetModeUpdateEvent")),
      VT(63, "ETriggerPlanetPanelPanelReplay", R("B_GameSTriggerPlanetPanelReplayEvent")),
      VT(64, "ETriggerSoundtrackDone", R("B_GameSTriggerSoundtrackDoneEvent")),
      VT(65, "ETriggerPlanetMissionSelected", R("B_GameSTriggerPlanetMissionSelectedEvent")),
      VT(66, "ETriggerKeyPressed", R("B_GameSTriggerKeyPressedEvent")),
      VT(67, "ETriggerMovieFunction", R("B_GameSTriggerMovieFunctionEvent")),
      VT(68, "ETriggerPlanetPanelPanelBirthComplete", R("B_GameSTriggerPlanetPanelBirthCompleteEvent")),
      VT(69, "ETriggerPlanetPanelPanelDeathComplete", R("B_GameSTriggerPlanetPanelDeathCompleteEvent")),
      VT(70, "EResourceRequest", R("B_GameSResourceRequestEvent")),
      VT(71, "EResourceRequestFulfill", R("B_GameSResourceRequestFulfillEvent")),
      VT(72, "EResourceRequestCancel", R("B_GameSResourceRequestCancelEvent")),
      VT(73, "ETriggerResearchPanelExit", R("B_GameSTriggerResearchPanelExitEvent")),
      VT(74, "ETriggerResearchPanelPurchase", R("B_GameSTriggerResearchPanelPurchaseEvent")),
      VT(75, "ETriggerResearchPanelSelectionChanged", R("B_GameSTriggerResearchPanelSelectionChangedEvent")),
      VT(76, "ETriggerCommandError", R("B_GameSTriggerCommandErrorEvent")),
      VT(77, "ETriggerMercenaryPanelExit", R("B_GameSTriggerMercenaryPanelExitEvent")),
      VT(78, "ETriggerMercenaryPanelPurchase", R("B_GameSTriggerMercenaryPanelPurchaseEvent")),
      VT(79, "ETriggerMercenaryPanelSelectionChanged", R("B_GameSTriggerMercenaryPanelSelectionChangedEvent")),
      VT(80, "ETriggerVictoryPanelExit", R("B_GameSTriggerVictoryPanelExitEvent")),
      VT(81, "ETriggerBattleReportPanelExit", R("B_GameSTriggerBattleReportPanelExitEvent")),
      VT(82, "ETriggerBattleReportPanelPlayMission", R("B_GameSTriggerBattleReportPanelPlayMissionEvent")),
      VT(83, "ETriggerBattleReportPanelPlayScene", R("B_GameSTriggerBattleReportPanelPlaySceneEvent")),
      VT(84, "ETriggerBattleReportSelectionChanged", R("B_GameSTriggerBattleReportPanelSelectionChangedEvent")),
      VT(85, "ETriggerVictoryPanelPlayMissionAgain", R("B_GameSTriggerVictoryPanelPlayMissionAgainEvent")),
      VT(86, "ETriggerMovieStarted", R("B_GameSTriggerMovieStartedEvent")),
      VT(87, "ETriggerMovieFinished", R("B_GameSTriggerMovieFinishedEvent")),
      VT(88, "EDecrementGameTimeRemaining", R("B_GameSDecrementGameTimeRemainingEvent")),
      VT(89, "ETriggerPortraitLoaded", R("B_GameSTriggerPortraitLoadedEvent")),
      VT(90, "ETriggerQueryDialogDismissed", R("B_GameSTriggerCustomDialogDismissedEvent")),
      VT(91, "ETriggerGameMenuItemSelected", R("B_GameSTriggerGameMenuItemSelectedEvent")),
      VT(92, "ETriggerMouseWheel", R("B_GameSTriggerMouseWheelEvent")),
      VT(93, "ETriggerPurchasePanelSelectedPurchaseItemChanged", R("B_GameSTriggerPurchasePanelSelectedPurchaseItemChangedEvent")),
      VT(94, "ETriggerPurchasePanelSelectedPurchaseCategoryChanged", R("B_GameSTriggerPurchasePanelSelectedPurchaseCategoryChangedEvent")),
      VT(95, "ETriggerButtonPressed", R("B_GameSTriggerButtonPressedEvent")),
      VT(96, "ETriggerGameCreditsFinished", R("B_GameSTriggerGameCreditsFinishedEvent")),
      VT(97, "ETriggerCutsceneBookmarkFired", R("B_GameSTriggerCutsceneBookmarkFiredEvent")),
      VT(98, "ETriggerCutsceneEndSceneFired", R("B_GameSTriggerCutsceneEndSceneFiredEvent")),
      VT(99, "ETriggerCutsceneConversationLine", R("B_GameSTriggerCutsceneConversationLineEvent")),
      VT(100, "ETriggerCutsceneConversationLineMissing", R("B_GameSTriggerCutsceneConversationLineMissingEvent")),
      VT(101, "EGameUserLeave", R("B_GameSGameUserLeaveEvent")),
      VT(102, "EGameUserJoin", R("B_GameSGameUserJoinEvent")),
      VT(103, "ECommandManagerState", R("B_GameSCommandManagerStateEvent")),
      VT(104, "ECmdUpdateTargetPoint", R("B_GameSCmdUpdateTargetPointEvent")),
      VT(105, "ECmdUpdateTargetUnit", R("B_GameSCmdUpdateTargetUnitEvent")),
      VT(106, "ETriggerAnimLengthQueryByName", R("B_GameSTriggerAnimLengthQueryByNameEvent")),
      VT(107, "ETriggerAnimLengthQueryByProps", R("B_GameSTriggerAnimLengthQueryByPropsEvent")),
      VT(108, "ETriggerAnimOffset", R("B_GameSTriggerAnimOffsetEvent")),
      VT(109, "ECatalogModify", R("B_GameSCatalogModifyEvent")),
      VT(110, "EHeroTalentTreeSelected", R("B_GameSHeroTalentTreeSelectedEvent")),
      VT(111, "ETriggerProfilerLoggingFinished", R("B_GameSTriggerProfilerLoggingFinishedEvent")),
      VT(112, "EHeroTalentTreeSelectionPanelToggled", R("B_GameSHeroTalentTreeSelectionPanelToggledEvent")),
      VT(113, "EMuteUserChanged", R("B_GameSMuteChatEvent")),
      VT(115, "EConvertToReplaySession", R("B_GameSConvertToReplaySessionEvent")),
      VT(116, "ESetSyncLoadingTime", R("B_GameSSetSyncLoadingTimeEvent")),
      VT(117, "ESetSyncPlayingTime", R("B_GameSSetSyncPlayingTimeEvent")),
      VT(118, "EPeerSetSyncLoadingTime", R("B_GameSPeerSetSyncLoadingTimeEvent")),
      VT(119, "EPeerSetSyncPlayingTime", R("B_GameSPeerSetSyncPlayingTimeEvent"))>>),
  B_GameSSetLobbySlotEvent |-> BStruct(<<
      G("m_slot_id", R("B_GameTLobbySlotId")),
      G("m_slot_change", R("B_GameSLobbySlotChange"))>>),
  B_GameSLobbySlotChange |-> BEnum(5, <<VT(0, "MControl", R("B_GameTControlId")),
      VT(1, "MUserId", BOpt(R("B_TUserId"))),
      VT(2, "MTeamId", R("B_GameTTeamId")),
      VT(3, "MColorPref", R("B_GameTColorPreference")),
      VT(4, "MRacePref", R("B_TRacePreference")),
      VT(5, "MDifficulty", R("B_GameTDifficulty")),
      VT(6, "MAiBuild", R("B_GameTaiBuild")),
      VT(7, "MHandicap", R("B_GameTHandicap")),
      VT(8, "MObserve", R("B_EObserve")),
      VT(9, "MLogoIndex", R("B_GameTPlayerLogoIndex")),
      VT(10, "MHero", R("B_CHeroHandle")),
      VT(11, "MSkin", R("B_CSkinHandle")),
      VT(12, "MMount", R("B_CMountHandle")),
      VT(13, "MLicenses", R("B_GameCLicenseArray")),
      VT(14, "MTandemLeaderId", BOpt(R("B_TUserId"))),
      VT(15, "MCommander", R("B_CCommanderHandle")),
      VT(16, "MCommanderLevel", R("B_Uint32")),
      VT(17, "MHasSilencePenalty", BBool),
      VT(18, "MTandemId", BOpt(R("B_TUserId"))),
      VT(19, "MCommanderMasteryLevel", R("B_Uint32"))>>),
  B_GameTHandicap |-> P("0", 7),
  B_GameCLicenseArray |-> L(13, R("B_GameTLicense")),
  B_GameSCmdEvent |-> BStruct(<<
      G("m_cmd_flags", P("0", 26)),
      G("m_abil", BOpt(R("B_GameSCmdAbil"))),
      G("m_data", R("B_GameSCmdData")),
      G("m_sequence", P("1", 32)),
      G("m_other_unit", BOpt(R("B_GameTUnitTag"))),
      G("m_unit_group", BOpt(R("B_Uint32")))>>),
  B_GameSLobbySlot |-> BStruct(<<
      G("m_control", R("B_GameTControlId")),
      G("m_user_id", BOpt(R("B_TUserId"))),
      G("m_team_id", R("B_GameTTeamId")),
      G("m_color_pref", R("B_GameTColorPreference")),
      G("m_race_pref", R("B_TRacePreference")),
      G("m_difficulty", R("B_GameTDifficulty")),
      G("m_ai_build", R("B_GameTaiBuild")),
      G("m_handicap", R("B_GameTHandicap")),
      G("m_observe", R("B_EObserve")),
      G("m_logo_index", R("B_GameTPlayerLogoIndex")),
      G("m_hero", R("B_CHeroHandle")),
      G("m_skin", R("B_CSkinHandle")),
      G("m_mount", R("B_CMountHandle")),
      G("m_artifacts", R("B_GameCArtifactArray")),
      G("m_working_set_slot_id", BOpt(R("B_Uint8"))),
      G("m_rewards", R("B_GameCRewardArray")),
      G("m_toon_handle", R("B_CToonHandle")),
      G("m_licenses", R("B_GameCLicenseArray")),
      G("m_tandem_leader_id", BOpt(R("B_TUserId"))),
      G("m_commander", R("B_CCommanderHandle")),
      G("m_commander_level", R("B_Uint32")),
      G("m_has_silence_penalty", BBool),
      G("m_tandem_id", BOpt(R("B_TUserId"))),
      G("m_commander_mastery_level", R("B_Uint32")),
      G("m_commander_mastery_talents", R("B_GameCCommanderMasteryTalentArray")),
      G("m_trophy_id", R("B_Uint32")),
      G("m_reward_overrides", R("B_GameCRewardOverrideArray"))>>),
  B_GameCLobbySlotArray |-> L(5, R("B_GameSLobbySlot")),
  B_GameSLobbyState |-> BStruct(<<
      G("m_phase", R("B_GameEPhase")),
      G("m_max_users", R("B_TUserCount")),
      G("m_max_observers", R("B_TUserCount")),
      G("m_slots", R("B_GameCLobbySlotArray")),
      G("m_random_seed", R("B_Uint32")),
      G("m_host_user_id", BOpt(R("B_TUserId"))),
      G("m_is_single_player", BBool),
      G("m_picked_map_tag", R("B_Uint8")),
      G("m_game_duration", R("B_Uint32")),
      G("m_default_difficulty", R("B_GameTDifficulty")),
      G("m_default_ai_build", R("B_GameTaiBuild"))>>),
  B_GameSLobbySyncState |-> BStruct(<<
      G("m_user_initial_data", R("B_CUserInitialDataArray")),
      G("m_game_description", R("B_GameSGameDescription")),
      G("m_lobby_state", R("B_GameSLobbyState"))>>),
  B_ReplaySInitData |-> BStruct(<<
      G("m_sync_lobby_state", R("B_GameSLobbySyncState"))>>)
]

Schema75689 == Changes75689 @@ Schema87702

=============================================================================
