//! Arrow exports of sets of replays, read back column by column.
use crate::iter::{replay_file, to};
use crate::util::*;
use crate::wire::{limbs, text, truth};
use arrow::array::*;
use arrow::datatypes::{DataType, TimeUnit};
use s2protocol::arrow_store::{ArrowIpcTypes, WriteArrowIpcProps};
use s2protocol::details::PlayerLobbyDetails;
use s2protocol::game_events::VersionedBalanceUnit;
use s2protocol::*;
use serde_json::{Map, Value, json};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};

fn cell(c: &ArrayRef, i: usize) -> Value {
    if c.is_null(i) { return json!([3]); }
    macro_rules! int { ($t:ty) => { limbs(c.as_any().downcast_ref::<$t>().unwrap().value(i) as i128) } }
    match c.data_type() {
        DataType::UInt8 => int!(UInt8Array),
        DataType::UInt16 => int!(UInt16Array),
        DataType::UInt32 => int!(UInt32Array),
        DataType::UInt64 => int!(UInt64Array),
        DataType::Int8 => int!(Int8Array),
        DataType::Int16 => int!(Int16Array),
        DataType::Int32 => int!(Int32Array),
        DataType::Int64 => int!(Int64Array),
        DataType::Float32 => json!([9, dyadic(c.as_any().downcast_ref::<Float32Array>().unwrap().value(i))]),
        DataType::Float64 => json!([9, dyadic(c.as_any().downcast_ref::<Float64Array>().unwrap().value(i) as f32)]),
        DataType::Boolean => truth(c.as_any().downcast_ref::<BooleanArray>().unwrap().value(i)),
        DataType::Utf8 => text(c.as_any().downcast_ref::<StringArray>().unwrap().value(i).as_bytes()),
        DataType::LargeUtf8 => text(c.as_any().downcast_ref::<LargeStringArray>().unwrap().value(i).as_bytes()),
        // in microseconds
        DataType::Timestamp(TimeUnit::Nanosecond, _) => {
            let v = c.as_any().downcast_ref::<TimestampNanosecondArray>().unwrap().value(i) as i128;
            if v % 1000 == 0 { limbs(v / 1000) } else { json!([9, [0, 0]]) }
        }
        DataType::Timestamp(TimeUnit::Microsecond, _) => int!(TimestampMicrosecondArray),
        t => panic!("harness: column type {t}"),
    }
}
/// All rows of a file; with `fine` as values, else only the identity and a digest of each.
fn table(path: &Path, fine: bool) -> Result<Value, String> {
    catch(|| read_table(path, fine)).unwrap_or_else(|m| if m.starts_with("harness:") { panic!("{m}") } else { Err(format!("the reader panics: {m}")) })
}
fn read_table(path: &Path, fine: bool) -> Result<Value, String> {
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    let r = arrow::ipc::reader::FileReader::try_new(f, None).map_err(|e| e.to_string())?;
    let mut rows = vec![];
    for b in r {
        let b = b.map_err(|e| e.to_string())?;
        let names: Vec<String> = b.schema().fields().iter().map(|f| f.name().clone()).collect();
        for i in 0..b.num_rows() {
            let row: Map<String, Value> = names.iter().zip(b.columns()).map(|(n, c)| (n.clone(), cell(c, i))).collect();
            if fine {
                rows.push(json!([5, row]));
            } else {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                Value::Object(row.clone()).to_string().hash(&mut h);
                rows.push(json!([row["ext_fs_id"], format!("{:016x}", h.finish())]));
            }
        }
    }
    Ok(json!(rows))
}
fn items(init: &InitData) -> Result<Vec<Value>, S2ProtocolError> {
    let it = SC2EventIterator::new(init, HashMap::new())?;
    Ok(it.map(|i| match &i.event_type {
        SC2EventType::Tracker { tracker_loop, event } => json!({"t": "T", "l": limbs(*tracker_loop as i128), "e": to(event), "h": to(&i.change_hint)}),
        SC2EventType::Game { game_loop, user_id, player_name, event } =>
            json!({"t": "G", "l": limbs(*game_loop as i128), "u": limbs(*user_id as i128), "n": to(player_name), "e": to(event), "h": to(&i.change_hint)}),
    }).collect())
}
/// What the library reads of one source, in memory.
fn contents(init: &InitData, fine: bool) -> Value {
    let ev = match catch(|| items(init)) {
        Ok(Ok(v)) => json!({"k": "ok", "v": if fine { v } else { vec![] }}),
        Ok(Err(_)) => json!({"k": "err"}),
        Err(m) => json!({"k": "panic", "m": m}),
    };
    let pl = match catch(|| -> Result<Vec<Value>, S2ProtocolError> {
        let p: Vec<PlayerLobbyDetails> = init.try_into()?;
        Ok(p.iter().map(to).collect())
    }) {
        Ok(Ok(v)) => json!({"k": "ok", "v": v}),
        Ok(Err(_)) => json!({"k": "err"}),
        Err(m) => json!({"k": "panic", "m": m}),
    };
    json!({"id": limbs(init.ext_fs_id as i128), "version": init.version, "events": ev, "players": pl})
}
fn spoil(path: &Path, kind: &str, c: &Value) {
    match kind {
        "gone" => std::fs::remove_file(path).unwrap(),
        "garbage" => std::fs::write(path, b"not an archive at all, but text").unwrap(),
        "void" => std::fs::write(path, b"").unwrap(),
        "notracker" | "nogame" | "nodetails" | "noinit" => {
            let mut c = c.clone();
            c.as_object_mut().unwrap().remove(match kind { "notracker" => "t", "nogame" => "g", "nodetails" => "d", _ => "i" });
            replay_file(&c, path.to_str().unwrap());
        }
        _ => {}
    }
}

const TABLES: [&str; 7] = ["details", "stats", "upgrades", "unit_born", "unit_died", "cmd_target_point", "cmd_target_unit"];
fn event_table(t: &str, s: Vec<InitData>, out: PathBuf, serial: bool) -> Result<(), Box<dyn std::error::Error>> {
    let none: HashMap<(u32, String), VersionedBalanceUnit> = HashMap::new();
    match t {
        "details" => ArrowIpcTypes::Details.handle_details_ipc_cmd(s, out),
        "once" => ArrowIpcTypes::Details.handle_read_once_write_all(s, out),
        "stats" => ArrowIpcTypes::Stats.handle_tracker_events(s, out, &none, serial),
        "upgrades" => ArrowIpcTypes::Upgrades.handle_tracker_events(s, out, &none, serial),
        "unit_born" => ArrowIpcTypes::UnitBorn.handle_tracker_events(s, out, &none, serial),
        "unit_died" => ArrowIpcTypes::UnitDied.handle_tracker_events(s, out, &none, serial),
        "cmd_target_point" => ArrowIpcTypes::CmdTargetPoint.handle_game_events(s, out, &none, serial),
        "cmd_target_unit" => ArrowIpcTypes::CmdTargetUnit.handle_game_events(s, out, &none, serial),
        x => panic!("harness: table {x}"),
    }
}

fn case(c: &Value, dir: &str) -> Value {
    let base = PathBuf::from(dir).join("export");
    let _ = std::fs::remove_dir_all(&base);
    let (src, out) = (base.join("src"), base.join("out"));
    std::fs::create_dir_all(&src).unwrap();
    std::fs::create_dir_all(&out).unwrap();
    let fine = c["fine"].as_bool().unwrap();
    let list = c["src"].as_array().unwrap();
    let path = |i: usize| src.join(format!("r{i}.SC2Replay"));
    let mut inits = vec![];
    for (i, s) in list.iter().enumerate() {
        let p = path(i);
        let mut whole = s.clone();
        let repeat = s["repeat"].as_u64().unwrap_or(1) as usize;
        for k in ["t", "g"] {
            let b = s[k].as_array().unwrap();
            whole[k] = json!(b.iter().cycle().take(b.len() * repeat).cloned().collect::<Vec<_>>());
        }
        replay_file(&whole, p.to_str().unwrap());
        let id: u64 = s["id"].as_str().unwrap().parse().unwrap();
        if c["op"] != "cmd" {
            inits.push(InitData::try_from((p.clone(), id)).unwrap_or_else(|e| panic!("harness: source: {e:?}")));
        }
        spoil(&p, s["kind"].as_str().unwrap(), &whole);
    }
    let serial = c["serial"].as_bool().unwrap();
    let threads = c["threads"].as_u64().unwrap() as usize;
    let op = c["op"].as_str().unwrap().to_string();
    let mut line = json!({"k": "export", "id": c["id"], "op": op, "serial": serial, "fine": fine, "kinds": list.iter().map(|s| s["kind"].clone()).collect::<Vec<_>>()});
    let wanted: Vec<&str> = match op.as_str() {
        "snapshot" | "cmd" => TABLES.to_vec(),
        "once" => vec!["details"],
        t => vec![t],
    };
    let none: HashMap<(u32, String), VersionedBalanceUnit> = HashMap::new();
    // the order of the sources, by number and identity
    let (mut order, mut reads) = (vec![], vec![]);
    if op == "cmd" {
        let (scan, depth) = (c["scan"].as_u64().unwrap() as usize, c["depth"].as_u64().unwrap() as usize);
        let found = get_matching_files(src.clone(), scan, depth).unwrap_or_else(|e| panic!("harness: scan: {e}"));
        for (k, f) in found.iter().enumerate() {
            let i = (0..list.len()).find(|i| path(*i) == *f).unwrap_or_else(|| panic!("harness: unknown file {f:?}"));
            order.push(i + 1);
            let r = catch(|| InitData::try_from((f.clone(), k as u64)));
            reads.push(match r {
                Ok(Ok(init)) => { let mut v = contents(&init, fine); v["k"] = json!("ok"); v }
                Ok(Err(_)) => json!({"k": "err"}),
                Err(m) => json!({"k": "panic", "m": m}),
            });
        }
        for k in ["min", "max", "take"] { line[k] = c[k].clone(); }
    } else {
        for (i, init) in inits.iter().enumerate() {
            order.push(i + 1);
            let mut v = contents(init, fine);
            v["k"] = json!("ok");
            if !fine {
                // the rows of each source exported on its own
                let mut solo = Map::new();
                for t in &wanted {
                    let f = out.join("solo.arrow");
                    let r = catch(|| event_table(if op == "once" { "once" } else { t }, vec![init.clone()], f.clone(), true).map_err(|e| e.to_string()));
                    solo.insert(t.to_string(), match r { Ok(Ok(())) => table(&f, false).unwrap_or(json!([[[3], "unreadable"]])), _ => json!([[[3], "failed"]]) });
                }
                v["solo"] = Value::Object(solo);
            }
            reads.push(v);
        }
    }
    line["order"] = json!(order);
    line["src"] = json!(reads);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    // Old files of these names may be there, longer than the new ones or no tables at all.
    if c["twice"].as_bool().unwrap_or(false) {
        for (n, t) in wanted.iter().enumerate() {
            let f = out.join(format!("{t}.arrow"));
            let old: Vec<InitData> = inits.iter().filter(|i| std::path::Path::new(&i.ext_fs_file_name).exists()).cloned().cycle().take(4 * inits.len()).collect();
            let made = n % 3 != 2 && !old.is_empty() && matches!(catch(|| event_table(t, old, f.clone(), true).map_err(|e| e.to_string())), Ok(Ok(())));
            if !made { std::fs::write(&f, vec![b'#'; 300_000]).unwrap(); }
        }
    }
    let result = pool.install(|| catch(|| -> Result<(), String> {
        match op.as_str() {
            "snapshot" => ArrowIpcTypes::handle_write_snapshot(inits.clone(), out.clone(), &none, serial),
            "cmd" => {
                let cmd = WriteArrowIpcProps {
                    scan_max_files: c["scan"].as_u64().unwrap() as usize,
                    process_max_files: c["take"].as_u64().unwrap() as usize,
                    traverse_max_depth: c["depth"].as_u64().unwrap() as usize,
                    min_version: c["min"].as_u64().map(|v| v as u32),
                    max_version: c["max"].as_u64().map(|v| v as u32),
                };
                ArrowIpcTypes::handle_arrow_ipc_cmd(src.clone(), out.clone(), &cmd, &none, serial)
            }
            t => event_table(t, inits.clone(), out.join(format!("{}.arrow", wanted[0])), serial),
        }.map_err(|e| e.to_string())
    }));
    line["got"] = match result {
        Ok(Ok(())) => {
            let mut tables = Map::new();
            for t in &wanted {
                tables.insert(t.to_string(), match table(&out.join(format!("{t}.arrow")), fine) { Ok(v) => json!({"k": "ok", "v": v}), Err(m) => json!({"k": "err", "m": m}) });
            }
            let names: Vec<String> = std::fs::read_dir(&out).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).filter(|n| n != "solo.arrow").collect();
            json!({"k": "ok", "tables": tables, "files": names.len()})
        }
        Ok(Err(m)) => json!({"k": "err", "m": m}),
        Err(m) => json!({"k": "panic", "m": m}),
    };
    let _ = std::fs::remove_dir_all(&base);
    line
}

/// `export IN OUT DIR`
pub fn run(input: &str, out: &str, dir: &str) {
    let mut w = Writer::new(out);
    for c in read_lines(input) { w.put(&case(&c, dir)); }
}
