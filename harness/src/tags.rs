//! Packs and unpacks unit tags.
use crate::util::*;
use s2protocol::tracker_events::*;
use serde_json::json;

/// `tags IN OUT`: a line is a stretch of indexes or of recycle counts.
pub fn run(input: &str, out: &str) {
    let mut w = Writer::new(out);
    for c in read_lines(input) {
        let g = |k: &str| c[k].as_u64().unwrap_or(0);
        let (mut tags, mut ix, mut rec) = (vec![], vec![], vec![]);
        for k in 0..g("n") {
            let v = g("from") + k * g("step");
            let (i, r) = if c["by"] == "recycle" { (g("index"), v) } else { (v, g("recycle")) };
            let t = unit_tag(i as u32, r as u32);
            // a tag outside 32 bits is shown as one that no pair has
            tags.push(if (0..1i64 << 32).contains(&t) { json!([t & 65535, t >> 16]) } else { json!([-1, -1]) });
            let whole = ((i << 18) + r) as i64;
            ix.push(json!(unit_tag_index(whole)));
            rec.push(json!(unit_tag_recycle(whole)));
        }
        let mut line = c.clone();
        line["tags"] = json!(tags);
        line["indexes"] = json!(ix);
        line["recycles"] = json!(rec);
        w.put(&line);
    }
}
