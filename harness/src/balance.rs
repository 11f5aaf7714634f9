//! Balance data: lookups, tables written and read again, and their use by the event iterator.
use crate::iter::replay_file;
use crate::st::{balance_spec, balance_unit};
use crate::util::*;
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use s2protocol::*;
use serde_json::{Map, Value, json};
use std::collections::HashMap;
use std::sync::OnceLock;

type Multi = HashMap<(u32, String), VersionedBalanceUnit>;
/// All numbers as text, so that TLC compares like with like.
fn texts(v: &Value) -> Value {
    match v {
        Value::Number(n) => json!(n.to_string()),
        Value::String(s) => json!(s.strip_prefix('#').unwrap_or(s)),
        Value::Array(a) => a.iter().map(texts).collect(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), texts(v))).collect()),
        _ => v.clone(),
    }
}
/// Entries of a table carry their names in fields that may look like numbers: only numbers change.
pub fn multi(tables: &Value) -> Multi {
    let mut m = HashMap::new();
    for (v, t) in tables.as_object().unwrap() {
        for (u, b) in t.as_object().unwrap() { m.insert((v.parse().unwrap(), u.clone()), balance_unit(u, b)); }
    }
    m
}
fn by_version<'a>(m: &'a Multi, keep: impl Fn(&str) -> bool) -> HashMap<String, HashMap<String, &'a VersionedBalanceUnit>> {
    let mut r: HashMap<String, HashMap<String, &VersionedBalanceUnit>> = HashMap::new();
    for ((v, u), b) in m {
        let v = v.to_string();
        if keep(&v) { r.entry(v).or_default().insert(u.clone(), b); }
    }
    r
}
pub fn included() -> &'static Multi {
    static M: OnceLock<Multi> = OnceLock::new();
    M.get_or_init(|| read_balance_data_from_included_assets().unwrap_or_else(|e| panic!("{e}")))
}
fn tables(c: &Value) -> Result<Value, String> {
    let own;
    let m: &Multi = match c["via"].as_str().unwrap() {
        "assets" => included(),
        "json" => {
            let dir = c["dir"].as_str().unwrap();
            write_balance_data_to_json(dir, multi(&c["tables"])).map_err(|e| e.to_string())?;
            own = read_balance_data_from_json_dir(dir).map_err(|e| e.to_string())?;
            &own
        }
        "read-json" => { own = read_balance_data_from_json_dir(c["dir"].as_str().unwrap()).map_err(|e| e.to_string())?; &own }
        "read-xml" => { own = traverse_versioned_balance_abilities(c["dir"].as_str().unwrap()).map_err(|e| e.to_string())?; &own }
        _ => { own = multi(&c["tables"]); &own }
    };
    let all: Vec<&str> = c["all"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap()).collect()).unwrap_or_default();
    let read = by_version(m, |v| c["tables"].get(v).is_some() || !all.contains(&v));
    let spec: Map<String, Value> = read.iter().map(|(v, t)| (v.clone(), Value::Object(t.iter().map(|(u, b)| (u.clone(), texts(&balance_spec(b)))).collect()))).collect();
    let mut owned: HashMap<String, VersionedBalanceUnits> = HashMap::new();
    for (v, t) in &read { owned.insert(v.clone(), t.iter().map(|(u, b)| (u.clone(), (*b).clone())).collect()); }
    let none = HashMap::new();
    let asked: Vec<Value> = c["ask"].as_array().unwrap().iter().map(|q| {
        let (v, u, l, i) = (q[0].as_str().unwrap(), q[1].as_str().unwrap(), q[2].as_u64().unwrap() as u16, q[3].as_i64().unwrap());
        json!([v, u, l.to_string(), i.to_string(), get_indexed_ability_command_name(owned.get(v).unwrap_or(&none), u, l, i)])
    }).collect();
    Ok(json!({"k": "tables", "id": c["id"], "tables": texts(&c["tables"]), "read": spec, "asked": asked}))
}
fn replay(c: &Value, path: &str) -> Result<Value, String> {
    replay_file(c, path);
    let init = InitData::try_from((std::path::PathBuf::from(path), 7)).map_err(|e| e.to_string())?;
    let mut it = SC2EventIterator::new(&init, multi(&c["tables"])).map_err(|e| e.to_string())?;
    let loaded: Map<String, Value> = it.sc2_state.balance_units.iter().map(|(u, b)| (u.clone(), texts(&balance_spec(b)))).collect();
    let mut commands = vec![];
    while let Some(i) = it.next() {
        let unit = it.sc2_state.units.get(&1).map(|u| u.name.clone());
        if let (Some(name), SC2EventType::Game { event: ReplayGameEvent::Cmd(e), .. }) = (unit, &i.event_type) {
            if let Some(a) = &e.m_abil {
                commands.push(json!([name, a.m_abil_link.to_string(), a.m_abil_cmd_index.to_string(), a.ability]));
            }
        }
    }
    Ok(json!({"k": "replay", "id": c["id"], "tables": texts(&c["tables"]), "version": c["build"].to_string(), "loaded": loaded, "commands": commands}))
}
/// `balance IN OUT DIR`
pub fn run(input: &str, out: &str, dir: &str) {
    let mut w = Writer::new(out);
    let path = format!("{dir}/balance.SC2Replay");
    for c in read_lines(input) {
        let line = match catch(|| if c["via"].is_string() { tables(&c) } else { replay(&c, &path) }) {
            Ok(Ok(v)) => v,
            Ok(Err(m)) => json!({"k": "err", "id": c["id"], "m": m}),
            Err(m) => json!({"k": "panic", "id": c["id"], "m": m}),
        };
        w.put(&line);
    }
}
