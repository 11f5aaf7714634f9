//! Drives the replay state machine and projects it into the vocabulary of ReplayState.tla.
use crate::util::*;
use s2protocol::details::{PlayerDetails, PlayerLobbyDetails};
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use s2protocol::*;
use serde_json::{Value, json};
use std::collections::{BTreeSet, HashMap};

pub fn tag(t: u32) -> Value {
    json!([t >> 18, t & 0x3ffff])
}
pub fn untag(v: &Value) -> u32 {
    ((v[0].as_u64().unwrap() << 18) + v[1].as_u64().unwrap()) as u32
}
fn p3(p: &Vec3D) -> Value {
    json!([dyadic(p.0[0]), dyadic(p.0[1]), dyadic(p.0[2])])
}
fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    match o {
        Some(v) => json!([f(v)]),
        None => json!([]),
    }
}
fn n(v: impl Into<i128>) -> Value {
    num(v.into())
}

pub fn cmd_data(d: &SC2UnitCmdData) -> Value {
    match d {
        SC2UnitCmdData::None => json!({"k":"none"}),
        SC2UnitCmdData::TargetPoint(p) => json!({"k":"point","p":p3(p)}),
        SC2UnitCmdData::TargetUnit(t) => json!({"k":"unit","flags":t.target_unit_flags,"timer":t.timer,
            "tag":tag(t.tag),"link":t.snapshot_unit_link,"ctl":opt(&t.snapshot_control_player_id,|x|n(*x)),
            "upk":opt(&t.snapshot_upkeep_player_id,|x|n(*x)),"p":p3(&t.snapshot_point)}),
        SC2UnitCmdData::Data(x) => json!({"k":"data","v":n(*x)}),
    }
}
pub fn unit(u: &SC2Unit) -> Value {
    json!({"ix":n(u.tag_index),"loop":n(u.last_game_loop),"own":opt(&u.user_id,|x|n(*x)),
        "pn":opt(&u.player_name,|x|json!(x)),"name":u.name,"pos":p3(&u.pos),"il":n(u.init_game_loop),
        "abil":opt(&u.creator_ability_name,|x|json!(x)),"rad":dyadic(u.radius),"col":u.color,
        "sel":u.is_selected,"init":u.is_init,
        "cmd":{"flags":n(u.cmd.cmd_flags),"abil":opt(&u.cmd.abil,|a|json!({"link":a.abil_link,"name":a.ability,
            "index":n(a.abil_cmd_index),"data":opt(&a.abil_cmd_data,|x|n(*x))})),"data":cmd_data(&u.cmd.data),
            "seq":n(u.cmd.sequence),"other":opt(&u.cmd.other_unit,|x|tag(*x)),
            "oname":opt(&u.cmd.other_unit_name,|x|json!(x)),"group":opt(&u.cmd.unit_group,|x|n(*x))}})
}
fn units(us: &[SC2Unit]) -> Value {
    Value::Array(us.iter().map(unit).collect())
}
pub fn hint(h: &UnitChangeHint) -> Value {
    match h {
        UnitChangeHint::Registered { unit: u, creator } => {
            json!({"k":"reg","unit":unit(u),"creator":opt(creator,unit)})
        }
        UnitChangeHint::Positions(us) => json!({"k":"pos","units":units(us)}),
        UnitChangeHint::TargetPoints(us) => json!({"k":"tp","units":units(us)}),
        UnitChangeHint::TargetUnits { units: us, target } => {
            json!({"k":"tu","units":units(us),"target":unit(target)})
        }
        UnitChangeHint::Unregistered { killer, killed } => {
            json!({"k":"unreg","killed":unit(killed),"killer":opt(killer,unit)})
        }
        UnitChangeHint::Abilities { units: us, event, target } => {
            json!({"k":"abil","units":units(us),"target":opt(target,unit),
            "ev":game_ev(&ReplayGameEvent::Cmd(event.clone()))})
        }
        UnitChangeHint::Selection(us) => json!({"k":"sel","units":units(us)}),
        UnitChangeHint::None => json!({"k":"none"}),
    }
}
fn raw<T: serde::Serialize>(e: &T) -> Value {
    let v = serde_json::to_value(e).unwrap();
    json!({"k":"other","raw":v.to_string()})
}
fn pt(p: &GameSMapCoord3D) -> Value {
    json!([n(p.x), n(p.y), n(p.z)])
}
fn ev_data_unit(t: &GameSCmdDataTargetUnit) -> Value {
    json!({"k":"unit","flags":t.m_target_unit_flags,"timer":t.m_timer,"tag":tag(t.m_tag),
        "link":t.m_snapshot_unit_link,"ctl":opt(&t.m_snapshot_control_player_id,|x|n(*x)),
        "upk":opt(&t.m_snapshot_upkeep_player_id,|x|n(*x)),"p":pt(&t.m_snapshot_point)})
}
fn game_ev(e: &ReplayGameEvent) -> Value {
    match e {
        ReplayGameEvent::CameraSave(c) => json!({"k":"cam","how":"save","target":[[n(c.m_target.x),n(c.m_target.y)]]}),
        ReplayGameEvent::CameraUpdate(c) => json!({"k":"cam","how":"update","target":opt(&c.m_target,|t|json!([n(t.x),n(t.y)]))}),
        ReplayGameEvent::Cmd(c) => json!({"k":"cmd","flags":n(c.m_cmd_flags),
            "abil":opt(&c.m_abil,|a|json!({"link":a.m_abil_link,"name":a.ability,"index":n(a.m_abil_cmd_index),
                "data":opt(&a.m_abil_cmd_data,|x|n(*x))})),
            "data":match &c.m_data {
                GameSCmdData::None => json!({"k":"none"}),
                GameSCmdData::TargetPoint(p) => json!({"k":"point","p":pt(p)}),
                GameSCmdData::TargetUnit(t) => ev_data_unit(t),
                GameSCmdData::Data(x) => json!({"k":"data","v":n(*x)}),
            },"seq":n(c.m_sequence),"other":opt(&c.m_other_unit,|x|tag(*x)),"group":opt(&c.m_unit_group,|x|n(*x))}),
        ReplayGameEvent::CmdUpdateTargetPoint(c) => json!({"k":"tp","p":pt(&c.m_target)}),
        ReplayGameEvent::CmdUpdateTargetUnit(c) => json!({"k":"tu","data":ev_data_unit(&c.m_target)}),
        ReplayGameEvent::SelectionDelta(d) => json!({"k":"seld","g":d.m_control_group_id,
            "tags":d.m_delta.m_add_unit_tags.iter().map(|t|tag(*t)).collect::<Vec<_>>()}),
        ReplayGameEvent::ControlGroupUpdate(c) => json!({"k":"ctl","g":c.m_control_group_index,
            "op":match c.m_control_group_update {
                GameEControlGroupUpdate::ESet=>"set",GameEControlGroupUpdate::EAppend=>"append",
                GameEControlGroupUpdate::ERecall=>"recall",GameEControlGroupUpdate::EClear=>"clear",
                GameEControlGroupUpdate::ESetAndSteal=>"setsteal",
                GameEControlGroupUpdate::EAppendAndSteal=>"appendsteal"}}),
        e => raw(e),
    }
}
fn tracker_ev(e: &ReplayTrackerEvent) -> Value {
    match e {
        ReplayTrackerEvent::UnitInit(e) => json!({"k":"init","ix":n(e.unit_tag_index),"name":e.unit_type_name,
            "pid":e.control_player_id,"x":e.x,"y":e.y}),
        ReplayTrackerEvent::UnitBorn(e) => json!({"k":"born","ix":n(e.unit_tag_index),"name":e.unit_type_name,
            "pid":e.control_player_id,"x":e.x,"y":e.y,"creator":opt(&e.creator_unit_tag_index,|x|n(*x)),
            "abil":opt(&e.creator_ability_name,|x|json!(x))}),
        ReplayTrackerEvent::UnitTypeChange(e) => json!({"k":"type","ix":n(e.unit_tag_index),"name":e.unit_type_name}),
        ReplayTrackerEvent::UnitDone(e) => json!({"k":"done","ix":n(e.unit_tag_index)}),
        ReplayTrackerEvent::UnitDied(e) => json!({"k":"died","ix":n(e.unit_tag_index),
            "killer":opt(&e.killer_unit_tag_index,|x|n(*x))}),
        ReplayTrackerEvent::UnitPosition(e) => json!({"k":"pos","first":n(e.first_unit_index),
            "items":e.items.iter().map(|x|n(*x)).collect::<Vec<_>>()}),
        ReplayTrackerEvent::PlayerSetup(e) => json!({"k":"setup","pid":e.player_id,"uid":opt(&e.user_id,|x|n(*x)),
            "slot":opt(&e.slot_id,|x|n(*x))}),
        ReplayTrackerEvent::Upgrade(e) => json!({"k":"upgrade","pid":e.player_id,"pname":opt(&e.player_name,|x|json!(x))}),
        e => raw(e),
    }
}
/// A whole event in the vocabulary of the specification: `src`, `loop`, `u` and `name` plus its kind.
pub fn event(e: &SC2EventType) -> Value {
    let mut v;
    match e {
        SC2EventType::Tracker { tracker_loop, event } => {
            v = tracker_ev(event);
            v["loop"] = n(*tracker_loop);
        }
        SC2EventType::Game { game_loop, user_id, event, .. } => {
            v = game_ev(event);
            v["loop"] = n(*game_loop);
            v["u"] = n(*user_id);
        }
    }
    v
}
/// Everything of the event that the state machine is not supposed to enrich, as text.
fn rest(e: &SC2EventType) -> String {
    let mut e = e.clone();
    match &mut e {
        SC2EventType::Tracker { event: ReplayTrackerEvent::Upgrade(u), .. } => u.player_name = None,
        SC2EventType::Game { event: ReplayGameEvent::Cmd(c), .. } => {
            if let Some(a) = &mut c.m_abil {
                a.ability = String::new()
            }
        }
        _ => {}
    }
    serde_json::to_value(&e).unwrap().to_string()
}

fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: integer expected, got {v}"))
}
fn o<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> {
    v.as_array().unwrap().first().map(f)
}
fn s(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}
fn unpt(v: &Value) -> GameSMapCoord3D {
    GameSMapCoord3D { x: i(&v[0]), y: i(&v[1]), z: i(&v[2]) as i32 }
}
fn un_data_unit(d: &Value) -> GameSCmdDataTargetUnit {
    GameSCmdDataTargetUnit {
        m_target_unit_flags: i(&d["flags"]) as u16,
        m_timer: i(&d["timer"]) as u8,
        m_tag: untag(&d["tag"]),
        m_snapshot_unit_link: i(&d["link"]) as u16,
        m_snapshot_control_player_id: o(&d["ctl"], i),
        m_snapshot_upkeep_player_id: o(&d["upk"], i),
        m_snapshot_point: unpt(&d["p"]),
    }
}
/// Builds the library event for an event of the specification.
pub fn make_event(v: &Value) -> SC2EventType {
    let lp = i(&v["loop"]);
    let rec = || v.get("rec").map(|r| r.as_u64().unwrap() as u32).unwrap_or(1);
    let t = |event| SC2EventType::Tracker { tracker_loop: lp, event };
    let g = |event| SC2EventType::Game {
        game_loop: lp,
        user_id: i(&v["u"]),
        player_name: v.get("who").and_then(|w| w.as_str()).map(|w| w.to_string()),
        event,
    };
    let ix = || i(&v["ix"]) as u32;
    match v["k"].as_str().unwrap() {
        "init" => t(ReplayTrackerEvent::UnitInit(UnitInitEvent {
            unit_tag_index: ix(), unit_tag_recycle: rec(), unit_type_name: s(&v["name"]),
            control_player_id: i(&v["pid"]) as u8, upkeep_player_id: v.get("upk").map(i).unwrap_or(i(&v["pid"])) as u8,
            x: i(&v["x"]) as u8, y: i(&v["y"]) as u8,
        })),
        "born" => t(ReplayTrackerEvent::UnitBorn(UnitBornEvent {
            unit_tag_index: ix(), unit_tag_recycle: rec(), unit_type_name: s(&v["name"]),
            control_player_id: i(&v["pid"]) as u8, upkeep_player_id: v.get("upk").map(i).unwrap_or(i(&v["pid"])) as u8,
            x: i(&v["x"]) as u8, y: i(&v["y"]) as u8,
            creator_unit_tag_index: o(&v["creator"], |x| i(x) as u32),
            creator_unit_tag_recycle: o(&v["creator"], |_| 1),
            creator_ability_name: o(&v["abil"], s),
        })),
        "type" => t(ReplayTrackerEvent::UnitTypeChange(UnitTypeChangeEvent {
            unit_tag_index: ix(), unit_tag_recycle: rec(), unit_type_name: s(&v["name"]),
        })),
        "done" => t(ReplayTrackerEvent::UnitDone(UnitDoneEvent { unit_tag_index: ix(), unit_tag_recycle: rec() })),
        "died" => t(ReplayTrackerEvent::UnitDied(UnitDiedEvent {
            unit_tag_index: ix(), unit_tag_recycle: rec(),
            killer_player_id: v.get("kpid").map(|x| i(x) as u8), x: 3, y: 4,
            killer_unit_tag_index: o(&v["killer"], |x| i(x) as u32),
            killer_unit_tag_recycle: o(&v["killer"], |_| 1),
        })),
        "pos" => t(ReplayTrackerEvent::UnitPosition(UnitPositionsEvent {
            first_unit_index: i(&v["first"]) as u32,
            items: v["items"].as_array().unwrap().iter().map(|x| i(x) as i32).collect(),
        })),
        "setup" => t(ReplayTrackerEvent::PlayerSetup(PlayerSetupEvent {
            player_id: i(&v["pid"]) as u8, m_type: 1,
            user_id: o(&v["uid"], |x| i(x) as u32), slot_id: o(&v["slot"], |x| i(x) as u32),
        })),
        "upgrade" => t(ReplayTrackerEvent::Upgrade(UpgradeEvent {
            player_id: i(&v["pid"]) as u8, player_name: o(&v["pname"], s),
            upgrade_type_name: "Upgrade".to_string(), count: 1,
        })),
        "cam" => g(if v["how"] == "save" {
            let p = &v["target"][0];
            ReplayGameEvent::CameraSave(CameraSaveEvent { m_which: 3, m_target: GameSPointMini { x: i(&p[0]), y: i(&p[1]) } })
        } else {
            ReplayGameEvent::CameraUpdate(CameraUpdateEvent {
                m_target: o(&v["target"], |p| GameSPointMini { x: i(&p[0]), y: i(&p[1]) }),
                m_distance: Some(7), m_pitch: None, m_yaw: Some(9), m_reason: None, m_follow: true,
            })
        }),
        "cmd" => g(ReplayGameEvent::Cmd(GameSCmdEvent {
            m_cmd_flags: i(&v["flags"]),
            m_abil: o(&v["abil"], |a| GameSCmdAbil {
                m_abil_link: i(&a["link"]) as u16, ability: s(&a["name"]),
                m_abil_cmd_index: i(&a["index"]), m_abil_cmd_data: o(&a["data"], |x| i(x) as u8),
            }),
            m_data: match v["data"]["k"].as_str().unwrap() {
                "none" => GameSCmdData::None,
                "point" => GameSCmdData::TargetPoint(unpt(&v["data"]["p"])),
                "unit" => GameSCmdData::TargetUnit(un_data_unit(&v["data"])),
                _ => GameSCmdData::Data(i(&v["data"]["v"]) as u32),
            },
            m_sequence: i(&v["seq"]),
            m_other_unit: o(&v["other"], untag),
            m_unit_group: o(&v["group"], |x| i(x) as u32),
        })),
        "tp" => g(ReplayGameEvent::CmdUpdateTargetPoint(GameSCmdUpdateTargetPointEvent { m_target: unpt(&v["p"]) })),
        "tu" => g(ReplayGameEvent::CmdUpdateTargetUnit(GameSCmdUpdateTargetUnitEvent { m_target: un_data_unit(&v["data"]) })),
        "seld" => g(ReplayGameEvent::SelectionDelta(GameSSelectionDeltaEvent {
            m_control_group_id: i(&v["g"]) as u8,
            m_delta: GameSSelectionDelta {
                m_subgroup_index: 0,
                m_remove_mask: match v.get("mask").and_then(|m| m.as_str()) {
                    Some("zero") => GameSSelectionMask::ZeroIndices(GameSelectionIndexArrayType { value: vec![0] }),
                    Some("one") => GameSSelectionMask::OneIndices(GameSelectionIndexArrayType { value: vec![0, 1] }),
                    _ => GameSSelectionMask::None,
                },
                m_add_subgroups: vec![],
                m_add_unit_tags: v["tags"].as_array().unwrap().iter().map(untag).collect(),
            },
        })),
        "ctl" => g(ReplayGameEvent::ControlGroupUpdate(GameSControlGroupUpdateEvent {
            m_control_group_index: i(&v["g"]) as u8,
            m_control_group_update: match v["op"].as_str().unwrap() {
                "set" => GameEControlGroupUpdate::ESet,
                "append" => GameEControlGroupUpdate::EAppend,
                "recall" => GameEControlGroupUpdate::ERecall,
                "clear" => GameEControlGroupUpdate::EClear,
                "setsteal" => GameEControlGroupUpdate::ESetAndSteal,
                "appendsteal" => GameEControlGroupUpdate::EAppendAndSteal,
                x => panic!("harness: group op {x}"),
            },
            m_mask: GameSSelectionMask::None,
        })),
        "other" => {
            let r: Value = serde_json::from_str(v["raw"].as_str().unwrap()).unwrap();
            if v.get("u").is_some() {
                g(serde_json::from_value(r).unwrap())
            } else {
                t(serde_json::from_value(r).unwrap())
            }
        }
        x => panic!("harness: event kind {x}"),
    }
}

pub fn users(st: &SC2ReplayState) -> Value {
    let mut ks: Vec<_> = st.user_state.keys().copied().collect();
    ks.sort();
    Value::Array(
        ks.iter()
            .map(|k| {
                let u = &st.user_state[k];
                json!({"u":n(*k),
                    "groups":u.control_groups.iter().map(|g|g.iter().map(|t|tag(*t)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                    "cam":[n(u.camera_pos.x),n(u.camera_pos.y)],
                    "pl":{"name":u.player_lobby_details.player_details.name,
                        "tpid":opt(&u.player_lobby_details.tracker_setup_player_id,|x|n(*x)),
                        "tslot":opt(&u.player_lobby_details.tracker_setup_slot_id,|x|n(*x))}})
            })
            .collect(),
    )
}
pub fn all_units(st: &SC2ReplayState) -> Value {
    let mut ks: Vec<_> = st.units.keys().copied().collect();
    ks.sort();
    Value::Array(ks.iter().map(|k| json!([n(*k), unit(&st.units[k])])).collect())
}
fn same_cmd(a: &SC2UnitCmd, b: &SC2UnitCmd) -> bool {
    // The string rendering is only built for the rare units with a command on either side.
    let plain = |c: &SC2UnitCmd| c.abil.is_none() && matches!(c.data, SC2UnitCmdData::None) && c.cmd_flags == 0;
    (plain(a) && plain(b) && a.sequence == b.sequence && a.other_unit == b.other_unit)
        || serde_json::to_string(a).unwrap() == serde_json::to_string(b).unwrap()
}
pub fn same_unit(a: &SC2Unit, b: &SC2Unit) -> bool {
    a.last_game_loop == b.last_game_loop && a.is_selected == b.is_selected && a.is_init == b.is_init
        && a.radius.to_bits() == b.radius.to_bits() && a.color == b.color && a.user_id == b.user_id
        && a.pos.0.map(f32::to_bits) == b.pos.0.map(f32::to_bits) && a.tag_index == b.tag_index
        && a.init_game_loop == b.init_game_loop && a.name == b.name && a.player_name == b.player_name
        && a.creator_ability_name == b.creator_ability_name && same_cmd(&a.cmd, &b.cmd)
}
/// Which units differ between two registries, and which are gone.
pub fn diff(a: &HashMap<u32, SC2Unit>, b: &HashMap<u32, SC2Unit>) -> (Vec<Value>, Vec<Value>) {
    let mut ch = BTreeSet::new();
    let mut rm = BTreeSet::new();
    for (k, u) in b {
        if !a.get(k).is_some_and(|o| same_unit(o, u)) {
            ch.insert(*k);
        }
    }
    for k in a.keys() {
        if !b.contains_key(k) {
            rm.insert(*k);
        }
    }
    (
        ch.iter().map(|k| json!([n(*k), unit(&b[k])])).collect(),
        rm.iter().map(|k| n(*k)).collect(),
    )
}
pub fn fresh(users: &Value, balance: &Value) -> SC2ReplayState {
    let mut st = SC2ReplayState::default();
    for (k, name) in users.as_object().unwrap() {
        let pld = PlayerLobbyDetails {
            player_details: PlayerDetails { name: s(name), ..Default::default() },
            ..Default::default()
        };
        st.user_state.insert(k.parse().unwrap(), SC2UserState::new(pld));
    }
    let b: HashMap<String, VersionedBalanceUnit> = balance
        .as_object()
        .map(|m| m.iter().map(|(k, v)| (k.clone(), balance_unit(k, v))).collect())
        .unwrap_or_default();
    st.with_balance_units(b)
}
/// A balance unit from its specification form {radius, abilities, trains, builds, researches}.
pub fn balance_unit(name: &str, v: &Value) -> VersionedBalanceUnit {
    let meta = || json!({"@name":"0","@tooltip":"0"});
    let arr = |x: &Value, f: &dyn Fn(&Value) -> Value| Value::Array(x.as_array().map(|a| a.iter().map(f).collect()).unwrap_or_default());
    let unref = |r: &Value| {
        let mut m = json!({"@id": r["id"]});
        if let Some(a) = o(&r["ability"], i) { m["@ability"] = json!(a) }
        if let Some(a) = o(&r["index"], i) { m["@index"] = json!(a) }
        m
    };
    let mut j = json!({"@id":name,"meta":meta(),"life":{"@start":1,"@max":1},"armor":{"@start":0,"@max":0},
        "shieldArmor":{"@start":0,"@max":0},"score":{},"misc":{},
        "abilities":{"ability":arr(&v["abilities"],&|a|{
            let mut m = json!({"@id":a["id"],"command":arr(&a["cmds"],&|c|{
                let mut m = json!({"@index":c["index"],"meta":meta()});
                if let Some(x)=o(&c["id"],s) { m["@id"]=json!(x) }
                m})});
            if let Some(x)=o(&a["index"],i) { m["@index"]=json!(x) }
            m})},
        "trains":{"unit":arr(&v["trains"],&unref)},"builds":{"unit":arr(&v["builds"],&unref)}});
    if let Some(r) = o(&v["radius"], |d| i(&d[0]) as f64 * 2f64.powi(i(&d[1]) as i32)) {
        j["misc"]["@radius"] = json!(r);
    }
    let res = v["researches"].as_array().cloned().unwrap_or_default();
    if !res.is_empty() {
        j["researches"] = json!({"upgrade":res.iter().map(|r|json!({"@id":r["id"],"@ability":r["ability"][0],
            "@index":r["index"][0],"meta":meta(),"cost":{}})).collect::<Vec<_>>()});
    }
    serde_json::from_value(j).unwrap_or_else(|e| panic!("harness: balance unit: {e}"))
}
/// The specification form of a library balance unit.
pub fn balance_spec(b: &VersionedBalanceUnit) -> Value {
    let unref = |r: &UnitRef| json!({"id":r.id,"ability":opt(&r.ability_id,|x|n(*x)),"index":opt(&r.command_index,|x|n(*x))});
    json!({"radius":opt(&b.misc.radius,|x|dyadic(*x)),
        "abilities":b.abilities.inner.iter().map(|a|json!({"id":a.id,"index":opt(&a.index,|x|n(*x)),
            "cmds":a.commands.iter().map(|c|json!({"id":opt(&c.id,|x|json!(x)),"index":n(c.index)})).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "trains":b.trains.inner.iter().map(unref).collect::<Vec<_>>(),
        "builds":b.builds.inner.iter().map(unref).collect::<Vec<_>>(),
        "researches":b.researches.as_ref().map(|r|r.inner.iter().map(|r|json!({"id":r.id,"ability":[r.ability],
            "index":[n(r.index)]})).collect::<Vec<_>>()).unwrap_or_default()})
}

/// One observed step: event, changed and removed units, the users when they changed, and the hint.
pub fn step(st: &mut SC2ReplayState, ev: SC2EventType) -> Value {
    let before = st.units.clone();
    let ubefore = users(st);
    let in_rest = rest(&ev);
    let mut line = json!({"t":"ev","ev":event(&ev)});
    match catch(|| st.handle_transition_to_next_event(ev)) {
        Ok(item) => {
            line["rest"] = json!(rest(&item.event_type) == in_rest);
            line["out"] = event(&item.event_type);
            line["hint"] = hint(&item.change_hint);
            line["variant"] = json!(item.change_hint.variant_name());
        }
        Err(msg) => {
            line["panic"] = json!(msg);
            return line;
        }
    }
    let (ch, rm) = diff(&before, &st.units);
    line["ch"] = Value::Array(ch);
    line["rm"] = Value::Array(rm);
    let uafter = users(st);
    if ubefore != uafter {
        line["users"] = uafter;
    }
    line
}
pub fn load_line(st: &SC2ReplayState) -> Value {
    json!({"t":"load","units":all_units(st),"users":users(st)})
}

/// `state IN OUT`: IN has lines {new:{users,balance}}, {ev,log}, {save}, {restore}.
pub fn run(input: &str, output: &str) {
    let mut st = SC2ReplayState::default();
    let mut saved: Vec<SC2ReplayState> = vec![];
    let mut w = Writer::new(output);
    let mut loaded = false;
    for v in read_lines(input) {
        if let Some(x) = v.get("new") {
            st = fresh(&x["users"], &x["balance"]);
            loaded = false;
        } else if v.get("save").is_some() {
            if !loaded {
                w.put(&load_line(&st));
                loaded = true;
            }
            saved.push(st.clone());
            w.put(&json!({"t":"save"}));
        } else if v.get("restore").is_some() {
            st = saved.pop().unwrap();
            w.put(&json!({"t":"restore"}));
            loaded = true;
        } else if let Some(e) = v.get("ev") {
            let ev = make_event(e);
            if v["log"] != json!(false) {
                if !loaded {
                    w.put(&load_line(&st));
                    loaded = true;
                }
                let line = step(&mut st, ev);
                let stop = line.get("panic").is_some();
                w.put(&line);
                if stop {
                    loaded = false;
                }
            } else {
                let _ = catch(|| st.handle_transition_to_next_event(ev));
                loaded = false;
            }
        }
    }
}
