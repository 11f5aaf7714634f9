//! Scans of directory trees that are built for the purpose.
use crate::balance::multi;
use crate::iter::replay_file;
use crate::util::*;
use crate::wire::{bytes, text};
use s2protocol::details::Details;
use s2protocol::dir_stats::{SC2ReplaysDirStats, scan_path, try_read_init_data};
use s2protocol::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

struct Built<'a> { found: HashMap<PathBuf, Vec<usize>>, files: &'a [Value], aside: PathBuf, n: usize, read: bool }

fn fill(path: &Path, e: &Value, files: &[Value]) {
    let kind = e["c"].as_str().unwrap_or("plain");
    match kind {
        "plain" => std::fs::write(path, b"x").unwrap(),
        "void" => std::fs::write(path, b"").unwrap(),
        "garbage" => std::fs::write(path, b"not an archive at all, but text").unwrap(),
        _ => {
            let mut c = files[e["f"].as_u64().unwrap() as usize].clone();
            if let Some(k) = match kind { "noinit" => Some("i"), "nodetails" => Some("d"), "notracker" => Some("t"), "nogame" => Some("g"), _ => None } {
                c.as_object_mut().unwrap().remove(k);
            }
            replay_file(&c, path.to_str().unwrap());
            if kind == "nouser" {      // a plain archive, without user data
                let b = std::fs::read(path).unwrap();
                let at = u32::from_le_bytes(b[8..12].try_into().unwrap()) as usize;
                std::fs::write(path, &b[at..]).unwrap();
            }
        }
    }
}
/// What the library reads of a file on its own.
fn read(path: &Path) -> Value {
    match catch(|| try_read_init_data(&path.to_path_buf(), 0)) {
        Ok(Ok(init)) => match catch(|| Details::try_from(&init)) {
            Ok(Ok(d)) => json!({"k": "ok", "version": init.version, "details": "ok", "title": text(d.title.as_bytes()),
                                "names": d.player_list.iter().filter(|p| p.observe == 0).map(|p| text(p.name.as_bytes())).collect::<Vec<_>>()}),
            Ok(Err(_)) => json!({"k": "ok", "version": init.version, "details": "err"}),
            Err(_) => json!({"k": "ok", "version": init.version, "details": "panic"}),
        },
        Ok(Err(_)) => json!({"k": "err"}),
        Err(_) => json!({"k": "panic"}),
    }
}
/// Builds the entries in a directory; what is linked to lies aside.
fn grow(b: &mut Built, dir: &Path, tree: &Value, at: &[usize]) -> Value {
    let mut out = vec![];
    for (i, e) in tree.as_array().unwrap().iter().enumerate() {
        let p = dir.join(OsString::from_vec(bytes(&e["n"])));
        let mut here = at.to_vec();
        here.push(i + 1);
        b.n += 1;
        let far = b.aside.join(format!("{}", b.n));
        let k = e["k"].as_str().unwrap();
        let mut r = json!({"n": e["n"], "k": k, "d": [], "c": e["c"].as_str().unwrap_or("plain"), "build": e["build"].as_u64().unwrap_or(0)});
        match k {
            "file" => fill(&p, e, b.files),
            "filelink" => { fill(&far, e, b.files); symlink(&far, &p).unwrap(); }
            "dangling" => symlink(&far, &p).unwrap(),
            "socket" => {
                // bound where the path is short enough for an address
                std::env::set_current_dir(dir).unwrap();
                drop(std::os::unix::net::UnixListener::bind(".s").unwrap());
                std::fs::rename(".s", &p).unwrap();
                std::env::set_current_dir("/").unwrap();
            }
            "dir" => { std::fs::create_dir(&p).unwrap(); r["d"] = grow(b, &p, &e["d"], &here); }
            "dirlink" => {
                std::fs::create_dir(&far).unwrap();
                symlink(&far, &p).unwrap();
                r["d"] = grow(b, &p, &e["d"], &here);
            }
            x => panic!("harness: entry {x}"),
        }
        if b.read && (k == "file" || k == "filelink") { r["read"] = read(&p); }
        b.found.insert(p, here);
        out.push(r);
    }
    json!(out)
}

fn case(c: &Value, dir: &str) -> Value {
    let base = PathBuf::from(dir).join("scan");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(base.join("aside")).unwrap();
    let op = c["op"].as_str().unwrap();
    let root = base.join("root");
    let empty = vec![];
    let mut b = Built { found: HashMap::new(), files: c["files"].as_array().unwrap_or(&empty), aside: base.join("aside"), n: 0, read: op == "stats" };
    let mut tree = json!([]);
    match c["root"].as_str().unwrap() {
        "dir" => { std::fs::create_dir(&root).unwrap(); tree = grow(&mut b, &root, &c["tree"], &[]); }
        "file" => std::fs::write(&root, b"x").unwrap(),
        _ => {}
    }
    let root = if c["root"] == "file" { std::fs::rename(&root, base.join("x.SC2Replay")).unwrap(); base.join("x.SC2Replay") } else { root };
    let mut line = json!({"k": "scan", "id": c["id"], "op": op, "root": c["root"], "tree": tree, "max": c["max"], "depth": c["depth"], "versions": []});
    line["got"] = if op == "files" {
        let max = c["max"].as_i64().unwrap();
        match catch(|| get_matching_files(root.clone(), if max < 0 { usize::MAX } else { max as usize }, c["depth"].as_u64().unwrap() as usize).map_err(|e| e.to_string())) {
            Ok(Ok(v)) => json!({"k": "ok", "v": v.iter().map(|p| b.found.get(p).cloned().unwrap_or(vec![0])).collect::<Vec<_>>()}),
            Ok(Err(m)) => json!({"k": "err", "m": m}),
            Err(m) => json!({"k": "panic", "m": m}),
        }
    } else {
        let serial = c["serial"].as_bool().unwrap();
        let included = c["included"].as_bool().unwrap();
        let tables = multi(&c["tables"]);
        let mut versions: Vec<u32> = if included { crate::balance::included().keys().map(|k| k.0).collect() } else { tables.keys().map(|k| k.0).collect() };
        versions.sort();
        versions.dedup();
        line["versions"] = json!(versions);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
        let r = pool.install(|| catch(|| {
            let path = root.to_str().unwrap();
            if included { SC2ReplaysDirStats::from_directory(path, serial) } else { scan_path(path, &tables, serial) }.map_err(|e| e.to_string())
        }));
        let top = |v: &[(String, usize)]| -> Value { v.iter().map(|(n, c)| json!([text(n.as_bytes()), c])).collect() };
        match r {
            Ok(Ok(s)) => json!({"k": "ok", "v": {"total": s.total_files, "supported": s.total_supported_replays, "abilities": s.ability_supported_replays,
                                                "players": top(&s.top_10_players), "maps": top(&s.top_10_maps)}}),
            Ok(Err(m)) => json!({"k": "err", "m": m}),
            Err(m) => json!({"k": "panic", "m": m}),
        }
    };
    let _ = std::fs::remove_dir_all(&base);
    line
}
/// `scan IN OUT DIR`
pub fn run(input: &str, out: &str, dir: &str) {
    let mut w = Writer::new(out);
    for c in read_lines(input) { w.put(&case(&c, dir)); }
}
