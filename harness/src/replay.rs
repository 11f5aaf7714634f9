//! Steps real or synthetic replay files through the state machine.
use crate::st;
use crate::util::*;
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use s2protocol::*;
use serde_json::json;
use std::collections::HashMap;

/// Both event streams of a replay in merge order, and the initial state.
pub fn load(path: &str) -> (SC2ReplayState, Vec<SC2EventType>) {
    let init = InitData::try_from((std::path::PathBuf::from(path), 1)).unwrap_or_else(|e| panic!("harness: {path}: {e:?}"));
    // The bundled balance data starts at 94137; parsing it is slow.
    let all = if init.version >= 94137 { read_balance_data_from_included_assets().unwrap_or_default() } else { Default::default() };
    let balance: HashMap<String, VersionedBalanceUnit> =
        all.into_iter().filter(|((v, _), _)| *v == init.version).map(|((_, n), u)| (n, u)).collect();
    let state = SC2ReplayState::try_from(&init).unwrap().with_balance_units(balance);
    let bytes = std::fs::read(path).unwrap();
    let (_, mpq) = s2protocol::parser::parse(&bytes).unwrap();
    let t = mpq.read_mpq_file_sector("replay.tracker.events", false, &bytes).unwrap().1;
    let g = mpq.read_mpq_file_sector("replay.game.events", false, &bytes).unwrap().1;
    let mut ti: TrackertEventIteratorState = t.into();
    let mut gi: GameEventIteratorState = g.into();
    let mut out = vec![];
    while let Some(e) = ti.get_next_event(init.version) {
        out.push(e);
    }
    while let Some(e) = gi.get_next_event(init.version, &state.user_state, &state.balance_units) {
        out.push(e);
    }
    let key = |e: &SC2EventType| match e {
        SC2EventType::Tracker { tracker_loop, .. } => (*tracker_loop, 0),
        SC2EventType::Game { game_loop, .. } => (*game_loop, 1),
    };
    out.sort_by_key(key);
    (state, out)
}

/// `replay FILE TRACE BALANCE FROM TO`: logs the steps FROM..TO of the replay.
pub fn run(path: &str, out: &str, bal: &str, from: usize, to: usize) {
    let (mut st, events) = load(path);
    let b: serde_json::Map<String, serde_json::Value> =
        st.balance_units.iter().map(|(k, v)| (k.clone(), st::balance_spec(v))).collect();
    let mut w = Writer::new(bal);
    w.put(&json!(b));
    let mut w = Writer::new(out);
    for (i, ev) in events.into_iter().enumerate() {
        if i >= to {
            break;
        }
        if i < from {
            let _ = catch(|| st.handle_transition_to_next_event(ev));
            continue;
        }
        if i == from {
            w.put(&st::load_line(&st));
        }
        w.put(&st::step(&mut st, ev));
    }
}
