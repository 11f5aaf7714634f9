#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept in one place so that titles and
statements stay in step with the checks)."""
import json, os
ST='src/state/mod.rs'; TS='src/tracker_events/state.rs'; GS='src/game_events/state.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p('C01','Merged event order: every event once, by loop, tracker before game on a tie',
  'Iterating a replay yields every decodable tracker event and every decodable game event exactly once, each kind in the order of its own stream, until both streams are exhausted. The merged sequence never goes back in game loop, and of a tracker and a game event on the same loop the tracker event comes first. When one stream ends (or ends early because of an undecodable event), the remaining events of the other one are still all produced.',
  ['inputs','histories'],'all pairs of tracker/game event streams: any interleaving of loops, ties, bursts, empty and truncated streams',
  'No test runs the merging iterator at all; an order depends on the relative loops of two streams, which a recorded replay samples in one way only.',
  [ST,'src/tracker_events/iterator.rs','src/game_events/iterator.rs'],
  [('the two look-ahead slots and the loop comparison','src/state/mod.rs Iterator::next for SC2EventIterator')],
  ['the sequence of items returned by SC2EventIterator'],
  [('next_tracker_event/next_game_event','one look-ahead event per stream',ST)])
p('C02','Event loops are running sums of deltas, also across skipped events',
  'The loop reported with an event is the sum of the deltas of all events of its own stream up to and including it, whether or not the earlier ones are supported or filtered. An event of a kind that the library does not model, or a tracker event whose name is not valid UTF-8, is skipped, and the next event is still read from the right place. An event that cannot be parsed ends its stream; nothing after it is reported.',
  ['inputs','histories'],'all event streams mixing supported, unsupported, invalidly named and truncated/corrupt events with any deltas',
  'The tests decode single hand-picked events; no test has an unsupported event or a delta in front of another event.',
  ['src/tracker_events/iterator.rs','src/game_events/iterator.rs'],
  [('event_loop accumulation and UnsupportedEventType skipping','get_next_event of both stream iterators')],
  ['TrackertEventIteratorState::get_next_event','GameEventIteratorState::get_next_event','SC2EventIterator'],
  [('event_loop, byte_index, bit_index','position and clock of a stream','src/*/iterator.rs')])
p('C03','Unit registry follows the unit life cycle of the tracker events',
  'After any history of events a unit is registered exactly if it was initialised, born or type-changed and has not died since, under its tag index. A registered unit carries the name last given to it, the owner and owner name, position, creation loop and creating ability of the event that registered it (later position reports and re-initialisations move it), is in the initialising state exactly from its initialisation until it is done, and its last-updated loop is that of the last event that concerned it. Repeated initialisation, birth, completion, renaming or death of known and unknown units never duplicates or loses another unit.',
  ['histories'],'all histories of init/born/type-change/done/died/owner-change events over any units, including repeats, unknown units and reused tag indexes',
  'No test drives the state machine; only the decoding of two setup events is asserted.',
  [TS,ST],[('handle_unit_init/born/type_change/done/died',TS)],['SC2ReplayState.units after each event'],
  [('units','registered units by tag index',ST)])
p('C04','Control groups hold exactly what the selection and group events say',
  'For every user the current selection and the ten hotkey groups are, after any history, what the user\'s own events make them: a selection delta replaces the contents of the group it names by the tags it adds; set copies the selection into the group, append adds it (sorted, without duplicates), clear empties the group, recall copies the group into the selection, and the stealing variants of set and append first remove the selected units from every hotkey group. Nothing but these events and the death of a unit changes a group, no event of one user changes a group of another, and events of unknown users or group numbers change nothing.',
  ['histories'],'all histories of selection, control group and unit death events of any number of users over all groups',
  'No test drives control groups; steal and append depend on the contents of several groups built by earlier events.',
  [GS,TS],[('handle_selection_delta, update_control_group',GS),('group clean-up in handle_unit_died',TS)],['SC2UserState.control_groups after each event'],
  [('control_groups','eleven groups of full unit tags per user, the last one is the selection',ST)])
p('C05','Selection marks and the doubled radius stay consistent',
  'A unit is marked as selected when a selection or a group recall of a user brings it in and unmarked when such an event of a user drops it from that user\'s selection; no other event changes the mark. At all times the radius of a registered unit is exactly the radius of its current unit type (the default when the type is not in the balance data), doubled while it is marked as selected, so it never drifts however often units are selected, renamed, completed or re-initialised.',
  ['histories'],'all histories of selections, recalls, births, deaths and type changes, with repeated and shared units',
  'No test selects a unit; drift needs several selection and type-change events in a particular order.',
  [GS,'src/state/unit_props.rs',ST],[('mark_selected_units/unmark_previously_selected_units',GS),('set_unit_props',ST)],['SC2Unit.is_selected, .radius, .color'],
  [('is_selected, radius','per-unit selection display state',ST)])
p('C06','Commands reach exactly the selected registered units',
  'A command with an ability is stored, with its flags, data, sequence and the ability name looked up for that unit\'s type, in every currently registered unit of the issuing user\'s selection and in no other unit; its target unit is the registered unit that the target tag denotes. A target-point update replaces the target of exactly those selected units by the point scaled to map units (y negated) and drops a previously targeted unit; a target-unit update does so with the target unit data when the target is registered, and changes nothing when it is not. A command without ability changes no unit.',
  ['histories','inputs'],'all histories mixing selections, births, deaths, commands and target updates of any users',
  'No test issues a command event to a state.',
  [GS,'src/state/unit_cmd.rs'],[('handle_cmd, handle_update_target_point, handle_update_target_unit',GS)],['SC2Unit.cmd','UnitChangeHint::{Abilities,TargetPoints,TargetUnits}'],
  [('cmd','last command of a unit','src/state/unit_cmd.rs')])
p('C07','Unit tags: index and recycle round trip, and the dead are forgotten',
  'Packing a unit tag index and a recycle counter into a tag and unpacking it gives both back for every 14-bit index and 18-bit recycle count, and distinct pairs give distinct tags. When a unit dies, no control group or selection of any user keeps any tag that denotes its index, so that a later unit reusing the index is not selected or commanded because of the dead one. A killer is reported only if it is itself still registered.',
  ['inputs','histories'],'all index/recycle pairs and all histories in which units die while grouped or selected and indexes are reused',
  'Tag packing has no test and no test kills a unit.',
  ['src/tracker_events/mod.rs',TS],[('unit_tag, unit_tag_index, unit_tag_recycle','src/tracker_events/mod.rs'),('handle_unit_died',TS)],['unit_tag*','SC2UserState.control_groups','UnitChangeHint::Unregistered'])
p('C08','Position reports move exactly the listed units',
  'A position report decodes to one entry per (index delta, x, y) triple, the unit index being the first index plus all deltas so far, an incomplete last triple being ignored. Every registered unit listed gets the reported map position of its last entry and the loop of the report; units that are not listed, and all other attributes, stay unchanged; unknown units are not registered by it.',
  ['inputs','histories'],'all position reports (any number of triples, zero and repeated deltas) over all registry states',
  'No test decodes or applies a position event.',
  ['src/tracker_events/unit_positions.rs',TS],[('to_unit_positions_vec','src/tracker_events/unit_positions.rs'),('handle_unit_position',TS)],['SC2Unit.pos','UnitChangeHint::Positions'])
p('C09','Players are identified consistently across lobby, tracker and game events',
  'A player setup event binds its tracker player id and slot to the user it names and to nobody else (an unknown user is ignored); a later setup of the same user overrides the binding. From then on units initialised or born under, and upgrades of, that tracker player id carry that user\'s player name, and those of unbound ids carry none. Every game event carries the name of the lobby player with its user id, or none.',
  ['histories','configurations'],'all lobbies and all histories of setup, init, born and upgrade events',
  'Names of units and events are never asserted by a test.',
  [TS,'src/game_events/iterator.rs','src/details.rs'],[('PlayerSetup handling, get_player_name_by_tracker_control_player_id',TS)],['SC2Unit.player_name','UpgradeEvent.player_name','SC2EventType::Game.player_name'])
p('C10','Change hints tell the truth and nothing else changes',
  'The hint returned with an event names exactly the units that the event registered, removed, moved, commanded or (un)marked, each as it is in the state after the event (removed units and the former state of a renamed unit as they were before it), and names the creator, killer or target when that unit is registered. An event whose hint names no unit leaves every unit as it was, except for its last-updated loop. Events that the state machine does not track leave the whole state unchanged and are returned unchanged.',
  ['histories'],'all histories of all event kinds',
  'Hints are never looked at by a test.',
  [TS,GS,ST],[('every event handler\'s return value','src/*/state.rs')],['SC2EventIteratorItem.change_hint','SC2ReplayState before/after'])
p('C11','Filters select items only, never the state',
  'With filters the iterator returns exactly the events that pass all of them, in the same order, with the same contents and hints as without: within the loop bounds (both inclusive, for tracker and game events alike), of the given player (by player id, controlling player, killing player or user id, as the kind of event has it), of the given unit type name for born, initialised and renamed units, and player statistics only when asked for. A maximum of N events returns the first N of those and then ends. Filtered events still take effect on the state.',
  ['configurations','inputs'],'all combinations of filters over all event histories',
  'No test sets a filter on the iterator.',
  ['src/filters.rs',ST,'src/tracker_events','src/game_events/mod.rs'],[('shoud_skip_event/should_skip',ST),('SC2ReplayFilters counters','src/filters.rs')],['SC2EventIterator::with_filters'])
p('C12','Byte-aligned values decode to what was encoded',
  'For the self-describing byte-aligned encoding, decoding the encoding of any value gives that value back and consumes exactly its bytes: variable-length signed integers over their whole 64-bit range, blobs, bit arrays, booleans, optional values, four-character codes and the tags that introduce arrays, choices and structures. A wrong type tag, a truncated value or an integer that goes on past 64 bits is reported as an error, never as a value.',
  ['inputs'],'all values and all byte strings, at every length',
  'One test decodes a handful of small integers.',
  ['src/versioned_decoder.rs','src/lib.rs'],[('tagged_* and validate_*_tag','src/versioned_decoder.rs'),('parse_vlq_int','src/lib.rs')],['the public decoding functions'])
p('C13','Bit-packed values decode to what was encoded at every bit offset',
  'For the bit-packed encoding, reading n bits (0 to 64), offset integers, booleans, byte blobs, bit arrays and four-character codes at any bit offset inside a byte gives the value that was written there and leaves the position right behind it. Byte alignment moves to the next byte boundary exactly when the position is inside a byte. Reading past the end of the input is an error.',
  ['inputs'],'all bit widths, values and start offsets, and inputs of all lengths',
  'Two tests read a few fields of one recorded buffer.',
  ['src/bit_packed_decoder.rs'],[('rtake_n_bits, take_n_bits_into_i64, take_bit_array, byte_align, parse_packed_int','src/bit_packed_decoder.rs')],['the public decoding functions'])
p('C14','Tracker events decode with every field intact',
  'Every tracker event of both supported protocol generations decodes to the event of its kind with each field equal to the encoded one: tags, names, player ids, coordinates, optional killer and creator data, all player statistics, position lists and player setup. Fields may come in any order; food counts are the encoded ones divided by 4096; an upgrade with an undecodable name is kept with a printable rendering of its bytes. A missing required field, a field that comes again with a value, and an unknown field are errors.',
  ['inputs'],'all tracker events with all field values and field orders, in both protocol generations',
  'Tests decode two player setup events only.',
  ['src/versions/protocol87702/byte_aligned.rs','src/versions/protocol75689/byte_aligned.rs','src/versions/protocol87702/events/tracker'],[('generated parsers and their conversion to version-less events','src/versions/*')],['read_tracker_events','TrackertEventIteratorState'])
p('C15','Game events decode with every field intact',
  'Every supported game event of both supported protocol generations decodes to the event of its kind with the user id and each field equal to the encoded one, whatever variants, optional parts, widths and list lengths it uses, and the following event is read from the byte boundary behind it. Every event kind of the protocol that the library does not model is passed over without disturbing the events around it.',
  ['inputs'],'all game events, with all field values, variants and list lengths, in both protocol generations',
  'One test decodes the start of one recorded stream.',
  ['src/versions/protocol87702/bit_packed.rs','src/versions/protocol75689/bit_packed.rs','src/versions/protocol87702/events/game'],[('generated parsers and their conversion to version-less events','src/versions/*')],['read_game_events','GameEventIteratorState'])
p('C16','Whole-file readers agree with the stepwise readers for every version',
  'For any replay the whole-file readers return the same supported events with the same deltas, users and contents, in the same order, as stepping through the same streams does, choosing the older protocol for builds up to 75689 and the newer one for all later builds, known or not. A stream that is empty or cannot be parsed to its end makes a whole-file reader return an error, not a partial result.',
  ['inputs','configurations'],'all streams and all base build numbers',
  'No test compares the readers or uses more than one build number.',
  ['src/versions/mod.rs','src/tracker_events/iterator.rs','src/game_events/iterator.rs','src/versions/protocol87702/events'],[('version dispatch and read_events loops','src/versions')],['read_tracker_events','read_game_events','read_message_events','SC2EventIterator'])
p('C17','Lobby and details are joined on the working set slot',
  'The players of a replay are the entries of the details player list, in order, whose working set slot occurs in the lobby, each paired with the first lobby slot with that number, the game description and map data of the replay, and the user data stored at that slot\'s position. Every joined player whose slot belongs to a user gets exactly one user state, under that user id, starting with eleven empty groups and the camera at the origin. The flat player rows repeat these fields, split the cache handles into extension, region and hashes, and lose no player.',
  ['inputs','configurations'],'all details/lobby pairs: missing, repeated and permuted slots, observers, computer players, any number of cache handles',
  'One test parses a fragment of a lobby slot; the join is not tested.',
  ['src/details.rs','src/init_data/mod.rs',ST],[('TryFrom<&InitData> for Vec<PlayerLobbyDetails>','src/details.rs')],['Vec<PlayerLobbyDetails>','SC2ReplayState.user_state','PlayerLobbyDetailsFlatRow'])
p('C18','Arrow exports contain exactly the rows of the events, in any mode',
  'Exporting a set of replays to Arrow files writes, per table, exactly one row per matching event (or per player) of the replays in the file selection, with the event\'s values, its replay\'s identity and nothing else, whether replays are processed serially or in parallel, one table at a time or all tables in one pass. A replay that cannot be read contributes no rows, nor does one whose date (outside the years 1677 to 2262) does not fit the date column contribute player rows, and neither disturbs the rows of others. Parallel runs may only change the order of whole replays.',
  ['inputs','schedules','configurations'],'all sets of replays, all schedules of the worker threads, all export modes and file limits',
  'No test writes or reads an Arrow file.',
  ['src/arrow_store','src/tracker_events/arrow_store','src/game_events/arrow_store',ST],[('ArrowIpcTypes handlers and the locked file writers','src/arrow_store/ipc_writer.rs')],['the written .arrow files'])
p('C19','Directory scans find exactly the replays within depth and count limits',
  'Collecting replays from a directory returns files with the replay extension found at most the given number of levels deep, each once, never more than the given maximum, and all of them when the maximum is not reached; a path that is not a directory yields nothing. Directory statistics count each readable replay, its players, maps and build versions exactly once, count unreadable ones separately or not at all, and rank the most frequent entries first.',
  ['inputs','configurations'],'all directory trees with files of all kinds and all depth and count limits',
  'No test scans a directory.',
  ['src/lib.rs','src/dir_stats.rs'],[('get_matching_files','src/lib.rs'),('scan_path','src/dir_stats.rs')],['get_matching_files','DirectoryStats'])
p('C20','Ability names come from the unit\'s own balance data of the replay\'s version',
  'The ability name of a command is that of the ability, training, build or research entry (in this order of precedence) with the same ability id and command index in the balance data of the commanded unit\'s type, and empty when there is none. Only balance data of the replay\'s own version is used, whatever other versions are loaded. Balance data written out as JSON and read again gives the same lookups.',
  ['inputs','configurations'],'all balance tables, unit types, ability ids and command indexes, and all sets of loaded versions',
  'No test looks up an ability.',
  ['src/game_events/ability',ST],[('get_indexed_ability_command_name','src/game_events/ability')],['get_indexed_ability_command_name','SC2EventIterator::new'])
p('C21','Malformed replay contents never crash the reader',
  'Reading details, lobby data, tracker, game or message events from sectors with arbitrary contents (truncated anywhere, with bits flipped, or random) ends in events or an error, never in a panic. What was decoded in front of the damage by the stepwise readers equals what the undamaged stream gives. Applying any decoded event sequence to the state machine never panics.',
  ['inputs','fault_sequences'],'all byte strings, in particular all truncations and corruptions of valid streams',
  'No test feeds malformed input.',
  ['src/versioned_decoder.rs','src/bit_packed_decoder.rs','src/lib.rs','src/versions'],[('error results of all parsers','src/versions')],['all readers'])
p('C22','Loop and time conversions are exact and monotone',
  'The replay date is the Windows file time of the details, shifted by the local offset, exact to the microsecond for every representable date. Converting a loop to seconds gives the number of whole seconds at 68.58391 milliseconds per loop (within the precision of a single-precision product), never decreases with the loop, and is the same for tracker and game loops.',
  ['inputs'],'all file times and offsets, all loops of a replay',
  'No test converts a time.',
  ['src/lib.rs'],[('transform_to_naivetime, convert_game_loop_to_seconds','src/lib.rs')],['Details.ext_datetime','convert_*_to_seconds'])
p('C23','Replay header, details, lobby data and chat decode with every field intact',
  'The replay header, the details, the lobby data and the chat messages of both supported protocol generations decode to values with each field equal to the encoded one, lists in order and optional parts present exactly when encoded, with results, speeds and cache handles rendered as documented. Message events that are not chat are skipped. The identity of a file (name, id, SHA-256 of its bytes, base build) is attached unchanged.',
  ['inputs'],'all details, lobby data, header and message values in both protocol generations',
  'Tests read one header and a fragment of one lobby slot.',
  ['src/details.rs','src/init_data/mod.rs','src/message_events.rs','src/protocol_version_decoder.rs','src/versions'],[('generated parsers and conversions','src/versions')],['read_details','read_init_data','read_message_events','read_protocol_header'])
p('C24','Downloaded map files decode into the fields they contain',
  'A map information file, document header or terrain height map taken from a cached map decodes into exactly the values stored in it (sizes and bounds, texts, named fields, one height per terrain point, in order). A file with a wrong magic number, a truncated body, a map size outside 0 to 256, contradictory bounds, a size that differs from the map information or a height above 4 is reported as an error.',
  ['inputs'],'all well-formed and truncated map information, document header and height map files',
  'One recorded example of each is decoded.',
  ['src/cache_handles'],[('document_header, map_info and t3_height_map parsers','src/cache_handles')],['the public parse functions'])
p('C25','Generated protocol readers compile and match the protocol description',
  'For any protocol description made of the kinds of declaration the generator knows, the generated Rust source compiles against the crate and declares every selected byte-aligned and bit-packed type with its fields or variants, in order and without the constants. Each generated reader delivers the value that the described tags, offsets, order and widths give (an integer in the bits its bounds need, an enumeration or choice in the bits its number of variants needs, a list, bit array or text after a length in the bits its largest length needs, an optional part after a flag), consumes exactly its encoding, and refuses unknown tags, missing fields and truncated input.',
  ['programs','inputs'],'all protocol descriptions of the known kinds and all inputs of the readers generated from them',
  'The generator is not tested; its output is checked in by hand.',
  ['src/generator'],[('ProtoMorphist, DecoderType','src/generator')],['generated Rust source'])
p('C26','Saving and restoring an iterator between any two items loses nothing',
  'A replay iterator that is serialised and restored between any two calls goes on to yield exactly the items, change hints and final state (units, groups, users, filters and limits, balance data) of one that was never saved. The values the library decodes (lobby, details, players and their table rows, tracker, game and message events, single items) survive being written as JSON and read again unchanged.',
  ['inputs','histories'],'all streams, filters, balance tables and sets of points at which the iterator is saved; all decoded values',
  'No test serialises anything but balance data.',
  [ST,'src/tracker_events','src/game_events','src/init_data','src/details.rs','src/filters.rs'],
  [('Serialize and Deserialize of SC2EventIterator and of all decoded types',ST)],
  ['items of a restored SC2EventIterator and its sc2_state; values read back by serde_json'])
p('C27','Map coordinate systems convert into each other exactly',
  'A position on a map lies in the cell that contains it and belongs to the nearest terrain point (the upper one of two equally near); a cell converts to the position of its centre and a terrain point to its own position, so that going there and back changes nothing. A terrain point relative to the playable area is its distance from the lower left corner of that area.',
  ['inputs'],'all positions on maps of up to 512 by 512 cells, all cells and terrain points',
  'No test uses the coordinate types.',
  ['src/cache_handles/map/coords.rs'],[('the From conversions and from_map_terrain','src/cache_handles/map/coords.rs')],['the converted coordinates'])
p('C28','Exported unit files are read completely, and the same after conversion to JSON',
  'Reading a directory of exported balance data yields one unit for every readable unit file of every numbered version, under that version and the id in the file, with every documented attribute and element, present or absent, exactly as written. Other files and directories and unreadable documents (a required part missing, a number that is none or out of range) contribute nothing and do not disturb the rest. The units written as JSON and read again are the same.',
  ['inputs'],'all unit documents over the documented elements, in any order and with unknown parts, and all directory layouts around them',
  'No unit file is in the repository; tests only read the converted JSON that is shipped.',
  ['src/game_events/ability/balance_data/mod.rs','src/game_events/ability/balance_data/json_handler.rs'],
  [('traverse_versioned_balance_abilities','src/game_events/ability/balance_data/mod.rs'),('write_balance_data_to_json, read_balance_data_from_json_dir','src/game_events/ability/balance_data/json_handler.rs')],
  ['the maps of units returned by the readers'])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
with open(os.path.join(root,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
