//! Dates and durations.
use crate::util::*;
use crate::wire::{limbs, text};
use s2protocol::details::Details;
use serde_json::{Value, json};

fn int(v: &Value) -> i64 { v.as_str().unwrap().parse().unwrap() }
fn date(d: &String) -> Value { text(d.as_bytes()) }
fn rendered<T: serde::Serialize>(v: &T) -> String { serde_json::to_value(v).unwrap().as_str().unwrap().to_string() }

fn case(c: &Value) -> Value {
    match c["t"].as_str().unwrap() {
        "date" => {
            let (utc, off) = (int(&c["utc"]), int(&c["off"]));
            let got = match catch(|| {
                let f = s2protocol::transform_to_naivetime(utc, off);
                let d = Details { time_utc: utc, time_local_offset: off, ..Default::default() }.set_metadata(5);
                (f.map(|v| rendered(&v)), rendered(&d.ext_datetime), d.ext_fs_id, d.time_utc == utc && d.time_local_offset == off)
            }) {
                Ok((f, d, id, kept)) => json!({"k": "ok", "f": f.as_ref().map_or(json!([3]), date), "d": date(&d), "kept": id == 5 && kept}),
                Err(m) => json!({"k": "panic", "m": m}),
            };
            json!({"k": "date", "utc": limbs(utc as i128), "off": limbs(off as i128), "got": got})
        }
        // the seconds of all loops of a range, as runs of equal values
        "range" => {
            let (from, to, step) = (int(&c["from"]), int(&c["to"]), int(&c["step"]));
            let got = match catch(|| {
                let mut runs: Vec<(i64, i64, u32)> = vec![];
                let mut differ = None;
                let mut l = from;
                while l <= to {
                    let s = s2protocol::convert_game_loop_to_seconds(l);
                    if s2protocol::convert_tracker_loop_to_seconds(l) != s { differ = differ.or(Some(l)); }
                    match runs.last_mut() {
                        Some(r) if r.2 == s => r.1 = l,
                        _ => runs.push((l, l, s)),
                    }
                    l = match l.checked_add(step) { Some(n) => n, None => break };
                }
                (runs, differ)
            }) {
                Ok((runs, differ)) => json!({"k": "ok", "runs": runs.iter().map(|r| json!([limbs(r.0 as i128), limbs(r.1 as i128), limbs(r.2 as i128)])).collect::<Vec<_>>(),
                                             "differ": differ.map_or(json!([3]), |l| limbs(l as i128))}),
                Err(m) => json!({"k": "panic", "m": m}),
            };
            json!({"k": "range", "from": limbs(from as i128), "to": limbs(to as i128), "got": got})
        }
        x => panic!("harness: {x}"),
    }
}
/// `time IN OUT`
pub fn run(input: &str, out: &str) {
    let mut w = Writer::new(out);
    for c in read_lines(input) { w.put(&case(&c)); }
}
