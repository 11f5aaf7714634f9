mod balance;
mod export;
mod generate;
mod iter;
mod mapfile;
mod mpq;
mod replay;
mod save;
mod scan;
mod st;
mod tags;
mod time;
mod units;
mod util;
mod wire;
fn main() {
    static IN_CODE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    std::panic::set_hook(Box::new(|i| {
        // The harness's own files have relative paths, those of the crate under test absolute ones.
        let f = i.location().map(|l| l.file().to_string()).unwrap_or_default();
        IN_CODE.store(f.starts_with('/') && !f.contains(".cargo") && !f.contains("/rustc/") && !f.contains("rustlib"), std::sync::atomic::Ordering::SeqCst);
        // Panics of the code under test are data; panics of the harness itself must be seen.
        let m = i.payload().downcast_ref::<String>().cloned().unwrap_or_default();
        if m.starts_with("harness:") { eprintln!("{i}"); }
    }));
    let a: Vec<String> = std::env::args().collect();
    let r = std::panic::catch_unwind(|| match a[1].as_str() {
        "state" => st::run(&a[2], &a[3]),
        "replay" => replay::run(&a[2], &a[3], &a[4], a[5].parse().unwrap(), a[6].parse().unwrap()),
        "iter" => iter::run(&a[2], &a[3], &a[4]),
        "lobby" => iter::lobby(&a[2], &a[3], &a[4]),
        "wire" => wire::run(&a[2], &a[3]),
        "balance" => balance::run(&a[2], &a[3], &a[4]),
        "coords" => mapfile::coords(&a[2], &a[3]),
        "mapfile" => mapfile::run(&a[2], &a[3]),
        "export" => export::run(&a[2], &a[3], &a[4]),
        "time" => time::run(&a[2], &a[3]),
        "save" => save::run(&a[2], &a[3], &a[4]),
        "tags" => tags::run(&a[2], &a[3]),
        "units" => units::run(&a[2], &a[3]),
        "generate" => generate::run(&a[2], &a[3], &a[4]),
        "scan" => scan::run(&a[2], &a[3], &a[4]),
        "pack" => iter::pack(&a[2], &a[3]),
        "sectors" => wire::sectors(&a[2], &a[3]),
        x => panic!("harness: unknown command {x}"),
    });
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("harness error: {m}");
        // A panic of the code under test that nothing caught is a result, not a fault of the harness.
        std::process::exit(if IN_CODE.load(std::sync::atomic::Ordering::SeqCst) && !m.starts_with("harness:") { 3 } else { 2 });
    }
}
