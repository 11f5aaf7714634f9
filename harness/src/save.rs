//! The iterator written as JSON and read again between any two steps, and single values likewise.
//! Contents are compared by their Debug rendering, which shows every field whether or not it is serialised.
use crate::iter::{digest, replay_file};
use crate::util::*;
use s2protocol::details::*;
use s2protocol::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::path::PathBuf;

fn again<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, how: &str) -> Result<T, String> {
    match how {
        "text" => serde_json::from_str(&serde_json::to_string(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        "pretty" => serde_json::from_slice(&serde_json::to_vec_pretty(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        _ => serde_json::from_value(serde_json::to_value(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
    }
}
fn dbg<T: Debug>(v: &T) -> String { digest(&format!("{v:?}")) }
/// Everything in a state; the maps in the order of their keys.
fn state(s: &SC2ReplayState) -> Value {
    let units: BTreeMap<_, _> = s.units.iter().collect();
    let users: BTreeMap<_, _> = s.user_state.iter().collect();
    let balance: BTreeMap<_, _> = s.balance_units.iter().collect();
    json!({"units": dbg(&units), "users": dbg(&users), "balance": dbg(&balance), "lobby": dbg(&s.init_data), "details": dbg(&s.details)})
}
fn item(i: &SC2EventIteratorItem) -> String { dbg(i) }
/// A run that is saved and restored whenever `at` says so; whole items and the last state.
fn run_with(mut it: SC2EventIterator, at: &[u64], how: &str, each: bool) -> Value {
    let r = catch(|| -> Result<Value, String> {
        let (mut items, mut kept, mut n, mut over) = (vec![], vec![], 0u64, 0);
        while over < 2 {
            for _ in at.iter().filter(|p| **p == n) { it = again(&it, how)?; }
            match it.next() {
                Some(i) => {
                    items.push(item(&i));
                    if each { kept.push(item(&again(&i, how)?)); }
                }
                None => over += 1,
            }
            n += 1;
        }
        Ok(json!({"k": "ok", "items": items, "kept": kept, "end": state(&it.sc2_state)}))
    });
    match r { Ok(Ok(v)) => v, Ok(Err(m)) => json!({"k": "err", "m": m}), Err(m) => json!({"k": "panic", "m": m}) }
}
fn values(init: &InitData, path: &str, how: &str) -> Result<Value, String> {
    let e = |e: S2ProtocolError| format!("{e:?}");
    let mut v = vec![];
    let mut put = |n: &str, a: String, b: String| v.push(json!([n, a, b]));
    put("lobby", dbg(init), dbg(&again(init, how)?));
    let d = Details::try_from(init).map_err(e)?;
    put("details", dbg(&d), dbg(&again(&d, how)?));
    let ps: Vec<PlayerLobbyDetails> = init.try_into().map_err(e)?;
    put("players", dbg(&ps), dbg(&again(&ps, how)?));
    let rows: Vec<PlayerLobbyDetailsFlatRow> = ps.into_iter().map(Into::into).collect();
    put("rows", dbg(&rows), dbg(&again(&rows, how)?));
    let filters = SC2ReplayFilters { player_id: Some(3), unit_tag: Some(1 << 33), min_loop: Some(-4), max_loop: Some(1 << 40), event_type: Some("a".into()),
        unit_name: Some("Zoë".into()), max_events: Some(5), include_stats: true };
    put("filters", dbg(&filters), dbg(&again(&filters, how)?));
    put("no filters", dbg(&SC2ReplayFilters::default()), dbg(&again(&SC2ReplayFilters::default(), how)?));
    let (mpq, f) = read_mpq(path).map_err(e)?;
    if let Ok(m) = read_message_events(path, &mpq, &f) { put("messages", dbg(&m), dbg(&again(&m, how)?)); }
    if let Ok(m) = read_tracker_events(path, &mpq, &f) { put("tracker", dbg(&m), dbg(&again(&m, how)?)); }
    if let Ok(m) = read_game_events(path, &mpq, &f) { put("game", dbg(&m), dbg(&again(&m, how)?)); }
    Ok(json!(v))
}
fn case(c: &Value, path: &str) -> Value {
    replay_file(c, path);
    let mut line = json!({"k": "save", "id": c["id"], "build": c["build"], "values": [], "runs": []});
    let how = c["how"].as_str().unwrap();
    let init = match catch(|| InitData::try_from((PathBuf::from(path), 7))) {
        Ok(Ok(i)) => i,
        _ => { line["got"] = json!({"k": "err"}); return line; }
    };
    match catch(|| values(&init, path, how)) {
        Ok(Ok(v)) => line["values"] = v,
        Ok(Err(m)) => line["values"] = json!([["values", "readable", m]]),
        Err(m) => line["values"] = json!([["values", "readable", m]]),
    }
    let start = || {
        let it = SC2EventIterator::new(&init, crate::balance::multi(&c["tables"]))?;
        Ok::<_, S2ProtocolError>(match &c["filter"] { Value::Null => it, f => it.with_filters(serde_json::from_value(f.clone()).unwrap()) })
    };
    match catch(start) {
        Ok(Ok(it)) => {
            line["got"] = run_with(it, &[], how, true);
            line["runs"] = c["splits"].as_array().unwrap().iter().map(|s| {
                let at: Vec<u64> = s.as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
                json!({"at": at, "r": run_with(start().unwrap(), &at, how, false)})
            }).collect();
        }
        Ok(Err(_)) => line["got"] = json!({"k": "err"}),
        Err(m) => line["got"] = json!({"k": "panic", "m": m}),
    }
    line
}
/// `save IN OUT DIR`
pub fn run(input: &str, out: &str, dir: &str) {
    let mut w = Writer::new(out);
    let path = format!("{dir}/save.SC2Replay");
    for c in read_lines(input) { w.put(&case(&c, &path)); }
}
