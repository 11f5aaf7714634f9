//! Whole synthetic or real replays through the merging iterator and the lobby join.
use crate::mpq;
use crate::util::*;
use crate::wire::{bytes, header, limbs, tagged, text};
use s2protocol::details::*;
use s2protocol::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

pub fn digest(s: &str) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    format!("{:016x}", h.finish())
}
pub fn to<T: serde::Serialize>(v: &T) -> Value { tagged(&serde_json::to_value(v).unwrap()) }
fn state_digest(s: &SC2ReplayState) -> String {
    let mut s = s.clone();
    s.balance_units = Default::default();
    digest(&serde_json::to_value(&s).unwrap().to_string())
}
/// Writes the replay of a case.
pub fn replay_file(c: &Value, path: &str) {
    let build = c["build"].as_u64().unwrap() as u32;
    let mut files = vec![];
    for (k, name) in [("t", "replay.tracker.events"), ("g", "replay.game.events"), ("d", "replay.details"), ("i", "replay.initData"), ("m", "replay.message.events")] {
        if c[k].is_array() { files.push((name.to_string(), bytes(&c[k]))); }
    }
    std::fs::write(path, mpq::archive(&header(build, 100), &files)).unwrap();
}
/// Writes one replay per case (development tool).
pub fn pack(input: &str, dir: &str) {
    for c in read_lines(input) { replay_file(&c, &format!("{dir}/{}.SC2Replay", c["id"].as_str().unwrap())); }
}
fn start(path: &str) -> Result<SC2EventIterator, S2ProtocolError> {
    let init = InitData::try_from((std::path::PathBuf::from(path), 7))?;
    SC2EventIterator::new(&init, HashMap::new())
}
fn item(i: &SC2EventIteratorItem) -> Value {
    let x = digest(&serde_json::to_value(i).unwrap().to_string());
    let q = json!([i.is_tracker_event(), i.is_game_event(), digest(&serde_json::to_value(SC2EventIteratorItem::new(i.event_type.clone(), i.change_hint.clone())).unwrap().to_string()) == x]);
    match &i.event_type {
        SC2EventType::Tracker { tracker_loop, event } => json!({"t": "T", "l": limbs(*tracker_loop as i128), "e": to(event), "x": x, "q": q}),
        SC2EventType::Game { game_loop, user_id, player_name, event } =>
            json!({"t": "G", "l": limbs(*game_loop as i128), "u": limbs(*user_id as i128), "n": to(player_name), "e": to(event), "x": x, "q": q}),
    }
}

fn case(c: &Value, path: &str) -> Value {
    replay_file(c, path);
    let mut line = json!({"k": "iter", "id": c["id"], "build": c["build"], "tb": c["t"], "gb": c["g"]});
    let mut it = match catch(|| start(path)) {
        Ok(Ok(it)) => it,
        Ok(Err(_)) => { line["got"] = json!({"k": "err"}); line["lobby"] = json!([]); line["runs"] = json!([]); return line; }
        Err(m) => { line["got"] = json!({"k": "panic", "m": m}); line["lobby"] = json!([]); line["runs"] = json!([]); return line; }
    };
    line["slots"] = it.sc2_state.details.player_list.iter().map(|p| json!([text(p.name.as_bytes()), to(&p.working_set_slot_id)])).collect();
    line["lobby"] = it.sc2_state.user_state.iter()
        .map(|(k, v)| json!([limbs(*k as i128), text(v.player_lobby_details.player_details.name.as_bytes())])).collect();
    let end = |it: &mut SC2EventIterator, f: &dyn Fn(&SC2EventIteratorItem) -> Value| -> Result<(Vec<Value>, String), String> {
        catch(|| {
            let mut items = vec![];
            while let Some(i) = it.next() { items.push(f(&i)); }
            // the end is final
            for _ in 0..2 { if let Some(i) = it.next() { items.push(f(&i)); } }
            (items, state_digest(&it.sc2_state))
        })
    };
    match end(&mut it, &item) {
        Ok((v, s)) => { line["got"] = json!({"k": "ok", "v": v}); line["end"] = json!(s); }
        Err(m) => { line["got"] = json!({"k": "panic", "m": m}); }
    }
    let mut runs = vec![];
    for f in c["filters"].as_array().unwrap_or(&vec![]) {
        let mut filters: SC2ReplayFilters = serde_json::from_value(f.clone()).unwrap();
        let mut spec = json!({"max": filters.max_events.map_or(-1, |v| v as i64)});
        for k in ["player_id", "min_loop", "max_loop", "unit_name", "include_stats"] { spec[k] = tagged(&f[k]); }
        let it = start(path).unwrap();
        if let Some(name) = f["user_name"].as_str() {
            filters.set_player_id_from_user_name(name, &it.sc2_state.details);
            spec["name"] = tagged(&f["user_name"]);
            spec["chosen"] = to(&filters.player_id);
        }
        let mut it = it.with_filters(filters);
        runs.push(match end(&mut it, &|i| item(i)["x"].clone()) {
            Ok((v, s)) => json!({"f": spec, "k": "ok", "v": v, "end": s}),
            Err(m) => json!({"f": spec, "k": "panic", "m": m}),
        });
    }
    line["runs"] = json!(runs);
    line
}

/// `iter IN OUT DIR`
pub fn run(input: &str, out: &str, dir: &str) {
    let mut w = Writer::new(out);
    let path = format!("{dir}/case.SC2Replay");
    for c in read_lines(input) { w.put(&case(&c, &path)); }
}

/// `lobby IN OUT DIR`: the join of details and lobby, and everything derived from it.
pub fn lobby(input: &str, out: &str, dir: &str) {
    let mut w = Writer::new(out);
    for (n, c) in read_lines(input).enumerate() {
        let path = format!("{dir}/lobby-{n}.SC2Replay");
        replay_file(&c, &path);
        let fsid = c["fsid"].as_u64().unwrap_or(7);
        let contents = std::fs::read(&path).unwrap();
        let r = catch(|| -> Result<Value, S2ProtocolError> {
            let init = InitData::try_from((std::path::PathBuf::from(&path), fsid))?;
            let details = Details::try_from(&init)?;
            let players: Vec<PlayerLobbyDetails> = (&init).try_into()?;
            let state = SC2ReplayState::try_from(&init)?;
            let users: Vec<Value> = state.user_state.iter().map(|(k, v)| json!([limbs(*k as i128), to(v)])).collect();
            let rows: Vec<PlayerLobbyDetailsFlatRow> = players.iter().cloned().map(Into::into).collect();
            Ok(json!({"init": to(&init), "details": to(&details), "players": players.iter().map(to).collect::<Vec<_>>(), "users": users,
                      "names": details.get_player_names().iter().map(|n| text(n.as_bytes())).collect::<Vec<_>>(),
                      "same": state.init_data == init && state.details == details && state.units.is_empty(), "rows": rows.iter().map(to).collect::<Vec<_>>(),
                      "urows": Vec::<s2protocol::init_data::UserInitDataFlatRow>::from(&init).iter().map(to).collect::<Vec<_>>()}))
        });
        let got = match r {
            Ok(Ok(v)) => json!({"k": "ok", "v": v}),
            Ok(Err(_)) => json!({"k": "err"}),
            Err(m) => json!({"k": "panic", "m": m}),
        };
        w.put(&json!({"k": "lobby", "id": c["id"], "build": c["build"], "fsid": limbs(fsid as i128), "path": text(path.as_bytes()),
                      "sha": text(sha(&contents).as_bytes()), "got": got}));
        std::fs::remove_file(&path).unwrap();
    }
}
/// SHA-256 by the system tool, not by the library under test.
fn sha(b: &[u8]) -> String {
    use std::io::Write;
    let mut p = std::process::Command::new("sha256sum").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn()
        .unwrap_or_else(|e| panic!("harness: sha256sum: {e}"));
    p.stdin.take().unwrap().write_all(b).unwrap();
    String::from_utf8(p.wait_with_output().unwrap().stdout).unwrap()[..64].to_string()
}
