//! Directories of exported unit files, read as they are and after having been written as JSON.
use crate::util::*;
use s2protocol::game_events::*;
use serde_json::{Map, Value, json};

/// Values with a leading kind, so that TLC compares like with like.
fn shown(v: &Value, inside: &str) -> Value {
    match v {
        Value::Null => json!([0]),
        Value::String(s) => json!([1, s]),
        Value::Bool(b) => json!([1, b.to_string()]),
        Value::Number(n) if n.is_f64() => json!([2, dyadic(n.as_f64().unwrap() as f32)]),
        Value::Number(n) => json!([6, n.to_string()]),
        Value::Array(a) => json!([4, a.iter().map(|x| shown(x, inside)).collect::<Vec<_>>()]),
        // The effect of a weapon is kept in a field that is called score.
        Value::Object(m) => json!([3, m.iter().map(|(k, x)| (if inside == "weapon" && k == "score" { "effect".to_string() } else { k.clone() }, shown(x, k))).collect::<Map<_, _>>()]),
    }
}
fn all(m: &MultiVersionedBalanceUnits) -> Value {
    let mut r: Vec<_> = m.iter().map(|((v, u), b)| json!([v.to_string(), u, shown(&serde_json::to_value(b).unwrap(), "unit")])).collect();
    r.sort_by_key(|x| x.to_string());
    json!(r)
}
fn case(c: &Value) -> Value {
    let (dir, json_dir) = (c["dir"].as_str().unwrap(), c["json"].as_str());
    let r = catch(|| -> Result<Value, String> {
        let m = traverse_versioned_balance_abilities(dir).map_err(|e| e.to_string())?;
        let read = all(&m);
        let again = match json_dir {
            Some(d) => {
                // What an earlier conversion has left there: the same units with the contents of others.
                let mut keys: Vec<_> = m.keys().cloned().collect();
                keys.sort();
                let older: MultiVersionedBalanceUnits = keys.iter().enumerate().map(|(i, k)| (k.clone(), m[&keys[(i + 1) % keys.len()]].clone())).collect();
                write_balance_data_to_json(d, older).map_err(|e| e.to_string())?;
                write_balance_data_to_json(d, m).map_err(|e| e.to_string())?;
                if std::path::Path::new(d).is_dir() { all(&read_balance_data_from_json_dir(d).map_err(|e| e.to_string())?) } else { json!([]) }
            }
            None => json!([]),
        };
        Ok(json!({"k": "units", "read": read, "again": again, "written": json_dir.is_some()}))
    });
    let mut line = match r { Ok(Ok(v)) => v, Ok(Err(m)) => json!({"k": "err", "m": m}), Err(m) => json!({"k": "panic", "m": m}) };
    line["id"] = c["id"].clone();
    line["files"] = c["files"].clone();
    line
}
/// `units IN OUT`
pub fn run(input: &str, out: &str) {
    let mut w = Writer::new(out);
    for c in read_lines(input) { w.put(&case(&c)); }
}
