//! Runs the decoders on given bytes and logs what they returned, in the value notation of spec/Wire.tla.
use crate::mpq;
use crate::util::*;
use s2protocol::bit_packed_decoder as bp;
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use s2protocol::versioned_decoder as vd;
use s2protocol::*;
use serde_json::{Value, json};
use std::collections::HashMap;

pub fn limbs(v: i128) -> Value {
    let mut r = vec![json!(0), json!(if v < 0 { 1 } else { 0 })];
    let mut m = v.unsigned_abs();
    while m > 0 { r.push(json!((m & 0xffff) as u32)); m >>= 16; }
    Value::Array(r)
}
pub fn text(b: &[u8]) -> Value {
    let mut r = vec![json!(1)];
    r.extend(b.iter().map(|x| json!(*x)));
    Value::Array(r)
}
pub fn truth(b: bool) -> Value { json!([2, b as u8]) }
/// The JSON rendering of a library value as a tagged value.
pub fn tagged(v: &Value) -> Value {
    match v {
        Value::Null => json!([3]),
        Value::Bool(b) => truth(*b),
        Value::Number(n) => {
            if let Some(i) = n.as_i64() { limbs(i as i128) }
            else if let Some(u) = n.as_u64() { limbs(u as i128) }
            else { json!([9, dyadic(n.as_f64().unwrap() as f32)]) }
        }
        Value::String(s) => text(s.as_bytes()),
        Value::Array(a) => { let mut r = vec![json!(4)]; r.extend(a.iter().map(tagged)); Value::Array(r) }
        Value::Object(o) => {
            let m: serde_json::Map<String, Value> = o.iter().map(|(k, v)| (k.clone(), tagged(v))).collect();
            json!([5, m])
        }
    }
}
fn to<T: serde::Serialize>(v: &T) -> Value { tagged(&serde_json::to_value(v).unwrap()) }
pub fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }

/// One primitive operation; the value and the new position.
fn prim(op: &[Value], b: &[u8], p: usize) -> Result<(Value, usize), String> {
    let name = op[0].as_str().unwrap();
    let n = |i: usize| op[i].as_u64().unwrap() as usize;
    fn e<E: std::fmt::Debug>(x: E) -> String { format!("{x:?}") }
    let at = |tail: &[u8]| b.len() - tail.len();
    let bat = |(tail, off): (&[u8], usize)| (b.len() - tail.len()) * 8 + off;
    let rest = || &b[p..];
    let brest = || (&b[p / 8..], p % 8);
    Ok(match name {
        "vlq" => { let (t, v) = parse_vlq_int(rest()).map_err(e)?; (limbs(v as i128), at(t)) }
        "int" => { let (t, v) = vd::tagged_vlq_int(rest()).map_err(e)?; (limbs(v as i128), at(t)) }
        "blob" => { let (t, v) = vd::tagged_blob(rest()).map_err(e)?; (text(&v), at(t)) }
        "bitarray" => { let (t, v) = vd::tagged_bitarray(rest()).map_err(e)?; (text(&v), at(t)) }
        "bool" => { let (t, v) = vd::tagged_bool(rest()).map_err(e)?; (truth(v), at(t)) }
        "fourcc" => { let (t, v) = vd::tagged_fourcc(rest()).map_err(e)?; (limbs(v as i128), at(t)) }
        "tag" => {
            let f = match op[1].as_str().unwrap() {
                "array" => vd::validate_array_tag, "bitarray" => vd::validate_bitarray_tag, "blob" => vd::validate_blob_tag,
                "choice" => vd::validate_choice_tag, "opt" => vd::validate_opt_tag, "struct" => vd::validate_struct_tag,
                "bool" => vd::validate_bool_tag, "fourcc" => vd::validate_fourcc_tag, "int" => vd::validate_int_tag,
                x => panic!("harness: tag {x}"),
            };
            let (t, _) = f(rest()).map_err(e)?;
            (json!([3]), at(t))
        }
        "bits" => { let (t, v) = bp::take_n_bits_into_i64(brest(), n(1)).map_err(e)?; (limbs(v as i128), bat(t)) }
        "pint" => {
            let off: i64 = op[1].as_str().unwrap().parse().unwrap();
            let (t, v) = bp::parse_packed_int(brest(), off, n(2)).map_err(e)?;
            (limbs(v as i128), bat(t))
        }
        "bbool" => { let (t, v) = bp::parse_bool(brest()).map_err(e)?; (truth(v), bat(t)) }
        "arr" => { let (t, v) = bp::take_bit_array(brest(), n(1)).map_err(e)?; (text(&v), bat(t)) }
        "byte" => { let (t, v) = bp::take_unaligned_byte(brest()).map_err(e)?; (limbs(v as i128), bat(t)) }
        "bfourcc" => { let (t, v) = bp::take_fourcc(brest()).map_err(e)?; (text(&v), bat(t)) }
        "align" => { let (t, _) = bp::byte_align(brest()).map_err(e)?; (json!([3]), bat(t)) }
        "null" => { let (t, _) = bp::take_null(brest()).map_err(e)?; (json!([3]), bat(t)) }
        x => panic!("harness: op {x}"),
    })
}

fn prims(c: &Value) -> Value {
    let b = bytes(&c["b"]);
    let mut p = 0;
    let mut got = vec![];
    for op in c["ops"].as_array().unwrap() {
        match catch(|| prim(op.as_array().unwrap(), &b, p)) {
            Ok(Ok((v, q))) => { got.push(json!({"k": "ok", "v": v, "p": q})); p = q; }
            Ok(Err(_)) => { got.push(json!({"k": "err"})); break; }
            Err(m) => { got.push(json!({"k": "panic", "m": m})); break; }
        }
    }
    json!({"k": "prim", "id": c["id"], "bs": c["b"], "ops": c["ops"], "got": got})
}

const SIGNATURE: &[u8] = b"StarCraft II replay\x1b11";
pub fn vlq(v: i128) -> Vec<u8> {
    let mut m = v.unsigned_abs();
    let mut out = vec![((m & 0x3f) << 1) as u8 | (v < 0) as u8];
    m >>= 6;
    while m > 0 { *out.last_mut().unwrap() |= 0x80; out.push((m & 0x7f) as u8); m >>= 7; }
    out
}
/// A replay header of the given base build.
pub fn header(build: u32, loops: u32) -> Vec<u8> {
    let mut h = vec![5, 18, 0, 2];
    h.extend(vlq(SIGNATURE.len() as i128));
    h.extend(SIGNATURE);
    h.extend([2, 5, 12]);
    for (i, v) in [1u32, 5, 0, 11, build + 3, build].into_iter().enumerate() {
        h.extend(vlq(i as i128)); h.push(9); h.extend(vlq(v as i128));
    }
    h.extend([4, 9, 4, 6, 9]); h.extend(vlq(loops as i128));
    h.extend([8, 6, 0]);
    h.extend([10, 5, 2, 2, 2]); h.extend(vlq(16)); h.extend([7; 16]);
    h.extend([12, 9]); h.extend(vlq(build as i128 + 5));
    h.extend([14, 5, 2, 2, 2]); h.extend(vlq(16)); h.extend([9; 16]);
    h.extend([16, 6, 0]);
    h
}

fn outcome<T>(r: Result<Result<T, S2ProtocolError>, String>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(Ok(v)) => json!({"k": "ok", "v": f(v)}),
        Ok(Err(e)) => { if std::env::var("WIRE_DEBUG").is_ok() { eprintln!("{e:?}") } json!({"k": "err"}) }
        Err(m) => json!({"k": "panic", "m": m}),
    }
}

/// Every reader of the stream kind on the same bytes.
fn stream(c: &Value, w: &mut Writer) {
    let b = bytes(&c["b"]);
    let build = c["build"].as_u64().unwrap() as u32;
    let line = |k: &str, got: Value| json!({"k": k, "id": c["id"], "build": c["build"], "bs": c["b"], "got": got});
    let sector = |name: &str| mpq::archive(&header(build, 100), &[(name.to_string(), b.clone())]);
    match c["t"].as_str().unwrap() {
        "tracker" => {
            let r = catch(|| {
                let mut it: TrackertEventIteratorState = b.clone().into();
                let mut items = vec![];
                while let Some(e) = it.get_next_event(build) {
                    let SC2EventType::Tracker { tracker_loop, event } = e else { panic!("not a tracker event") };
                    items.push(json!({"l": limbs(tracker_loop as i128), "e": to(&event)}));
                }
                // the end is an end
                if it.get_next_event(build).is_some() && b.is_empty() { panic!("event from an empty stream") }
                Ok(items)
            });
            w.put(&line("tstep", outcome(r, |v| json!(v))));
            let file = sector("replay.tracker.events");
            let (_, m) = parser::parse(&file).unwrap();
            let r = catch(|| versions::read_tracker_events("x", &m, &file));
            w.put(&line("tbatch", outcome(r, |v| json!(v.iter().map(|e| json!({"l": limbs(e.delta as i128), "e": to(&e.event), "s": named(&e.event)})).collect::<Vec<_>>()))));
        }
        "game" => {
            let r = catch(|| {
                let mut it: GameEventIteratorState = b.clone().into();
                let (us, ab) = (HashMap::new(), HashMap::new());
                let mut items = vec![];
                while let Some(e) = it.get_next_event(build, &us, &ab) {
                    let SC2EventType::Game { game_loop, event, user_id, player_name } = e else { panic!("not a game event") };
                    if player_name.is_some() { panic!("a name out of nowhere") }
                    items.push(json!({"l": limbs(game_loop as i128), "u": limbs(user_id as i128), "e": to(&event)}));
                }
                Ok(items)
            });
            w.put(&line("gstep", outcome(r, |v| json!(v))));
            let file = sector("replay.game.events");
            let (_, m) = parser::parse(&file).unwrap();
            let r = catch(|| versions::read_game_events("x", &m, &file));
            w.put(&line("gbatch", outcome(r, |v| json!(v.iter().map(|e| json!({"l": limbs(e.delta as i128), "u": limbs(e.user_id as i128), "e": to(&e.event)})).collect::<Vec<_>>()))));
        }
        "message" => {
            let file = sector("replay.message.events");
            let (_, m) = parser::parse(&file).unwrap();
            let r = catch(|| versions::read_message_events("x", &m, &file));
            w.put(&line("mbatch", outcome(r, |v| json!(v.iter().map(|e| json!({"l": limbs(e.delta as i128), "u": limbs(e.user_id as i128), "e": to(&e.event)})).collect::<Vec<_>>()))));
        }
        "details" => {
            let file = sector("replay.details");
            let (_, m) = parser::parse(&file).unwrap();
            let r = catch(|| versions::read_details("x", &m, &file));
            w.put(&line("details", outcome(r, |v| own(&v))));
        }
        "init" => {
            let file = sector("replay.initData");
            let (_, m) = parser::parse(&file).unwrap();
            let r = catch(|| versions::read_init_data("x", &m, &file));
            w.put(&line("init", outcome(r, |v| own(&v))));
        }
        "header" => {
            let file = mpq::archive(&b, &[]);
            let (_, m) = parser::parse(&file).unwrap();
            let r = catch(|| read_protocol_header(&m).map(|(_, h)| h));
            w.put(&line("header", outcome(r, |h| {
                let n = |v: u32| limbs(v as i128);
                json!([5, {
                    "m_signature": text(&h.m_signature),
                    "m_version": version(&h.m_version),
                    "m_type": n(h.m_type.into()), "m_elapsed_game_loops": n(h.m_elapsed_game_loops), "m_use_scaled_time": truth(h.m_use_scaled_time),
                    "m_ngdp_root_key": md5(&h.m_ngdp_root_key), "m_data_build_num": n(h.m_data_build_num),
                    "m_replay_compatibility_hash": md5(&h.m_replay_compatibility_hash),
                    "m_ngdp_root_key_is_dev_data": truth(h.m_ngdp_root_key_is_dev_data)}])
            })));
            // the reader of only the signature and the version
            let r = catch(|| s2protocol::protocol_version_decoder::ProtocolHeader::parse(&b));
            w.put(&line("hshort", outcome(r.map(|r| r.map_err(|_| S2ProtocolError::MissingField(String::new()))), |(rest, h)| json!({
                "p": b.len() - rest.len(), "v": [5, {"m_signature": text(&h.m_signature), "m_version": version(&h.m_version)}]}))));
        }
        x => panic!("harness: stream {x}"),
    }
}
fn version(v: &versions::protocol87702::byte_aligned::SVersion) -> Value {
    let n = |v: u32| limbs(v as i128);
    json!([5, {"m_flags": n(v.m_flags.into()), "m_major": n(v.m_major.into()), "m_minor": n(v.m_minor.into()),
               "m_revision": n(v.m_revision.into()), "m_build": n(v.m_build), "m_base_build": n(v.m_base_build)}])
}
fn md5(h: &versions::protocol87702::byte_aligned::Smd5) -> Value {
    json!([5, {"m_data_deprecated": h.m_data_deprecated.as_ref().map_or(json!([3]), to), "m_data": text(&h.m_data)}])
}
/// The named list of the statistics of a player, as plots use it.
fn named(e: &ReplayTrackerEvent) -> Value {
    match e {
        ReplayTrackerEvent::PlayerStats(e) => e.stats.as_prop_name_value_vec().iter().map(|(n, v)| json!([text(n.as_bytes()), limbs(*v as i128)])).collect(),
        _ => json!([]),
    }
}
/// The attributes that come from the sector itself.
fn own<T: serde::Serialize>(v: &T) -> Value {
    let mut j = serde_json::to_value(v).unwrap();
    let o = j.as_object_mut().unwrap();
    o.retain(|k, _| !k.starts_with("ext_") && k != "version");
    tagged(&j)
}

pub fn run(input: &str, out: &str) {
    let mut w = Writer::new(out);
    for c in read_lines(input) {
        if c["t"] == "prim" { w.put(&prims(&c)) } else { stream(&c, &mut w) }
    }
}

/// `sectors FILE OUT`: the sectors of a real replay as cases of `wire`.
pub fn sectors(path: &str, out: &str) {
    let file = std::fs::read(path).unwrap();
    let (_, m) = parser::parse(&file).unwrap();
    let (_, h) = read_protocol_header(&m).unwrap();
    let build = h.m_version.m_base_build;
    let mut w = Writer::new(out);
    w.put(&json!({"t": "header", "build": build, "id": "header", "b": m.user_data.as_ref().unwrap().content}));
    for (t, name) in [("details", "replay.details"), ("init", "replay.initData"), ("message", "replay.message.events"),
                      ("tracker", "replay.tracker.events"), ("game", "replay.game.events")] {
        let (_, b) = m.read_mpq_file_sector(name, false, &file).unwrap();
        w.put(&json!({"t": t, "build": build, "id": t, "b": b}));
    }
}
