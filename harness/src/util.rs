use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Small integers as they are; what TLC's 32-bit integers cannot hold as opaque text.
pub fn num(v: i128) -> Value {
    if v.abs() < (1 << 31) { json!(v as i64) } else { json!(format!("#{v}")) }
}
/// The exact value of a float as [odd mantissa, exponent].
pub fn dyadic(f: f32) -> Value {
    if f == 0.0 { return json!([0, 0]); }
    if !f.is_finite() { return json!([f.to_string(), 0]); }
    let b = f.to_bits();
    let e = ((b >> 23) & 0xff) as i32;
    let m = (b & 0x7fffff) as i64;
    let (mut m, mut e) = if e == 0 { (m, -149) } else { (m | 0x800000, e - 150) };
    while m % 2 == 0 { m /= 2; e += 1; }
    if f < 0.0 { m = -m }
    json!([m, e])
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".to_string())
    })
}
pub fn read_lines(path: &str) -> impl Iterator<Item = Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("harness: {path}: {e}"));
    std::io::BufReader::new(f).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap())
}
pub struct Writer(std::io::BufWriter<std::fs::File>);
impl Writer {
    pub fn new(path: &str) -> Self {
        Writer(std::io::BufWriter::new(std::fs::File::create(path).unwrap()))
    }
    pub fn put(&mut self, v: &Value) {
        writeln!(self.0, "{v}").unwrap();
        self.0.flush().unwrap();   // the log is complete even if the code under test aborts
    }
}
