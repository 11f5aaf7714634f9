//! The protocol generator: the text that it writes for a description.
use crate::util::*;
use s2protocol::generator::ProtoMorphist;
use serde_json::json;

/// `generate IN OUT DIR`
pub fn run(input: &str, out: &str, dir: &str) {
    let mut w = Writer::new(out);
    let (from, to) = (format!("{dir}/protocol90001.json"), format!("{dir}/generated.rs"));
    for c in read_lines(input) {
        std::fs::write(&from, c["json"].to_string()).unwrap();
        let r = catch(|| ProtoMorphist::r#gen(&from, &to).map_err(|e| e.to_string()));
        w.put(&match r {
            Ok(Ok(())) => json!({"k": "ok", "text": std::fs::read_to_string(&to).unwrap()}),
            Ok(Err(m)) => json!({"k": "err", "m": m}),
            Err(m) => json!({"k": "panic", "m": m}),
        });
        let _ = std::fs::remove_file(&to);
    }
}
