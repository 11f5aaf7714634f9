//! Files of map archives, as bytes on their own and inside an archive.
use crate::mpq;
use crate::util::*;
use crate::wire::{bytes, text};
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::*;
use serde_json::{Value, json};

fn info(m: &MapInfo) -> Value {
    json!({"file_version": m.file_version, "cell_width": m.cell_width, "cell_height": m.cell_height,
           "first_string": text(m.first_string.as_bytes()), "second_string": text(m.second_string.as_bytes()),
           "third_string": text(m.third_string.as_bytes()), "fourth_string": text(m.fourth_string.as_bytes()),
           "cell_left": m.cell_left, "cell_bottom": m.cell_bottom, "cell_right": m.cell_right, "cell_top": m.cell_top})
}
fn derived(m: &MapInfo) -> Value {
    let (a, b, c, d, e) = (m.cell_dim_map(), m.terrain_dim_map(), m.cell_left_bottom(), m.cell_right_top(), m.terrain_left_bottom());
    let playable = catch(|| (m.cell_dim_playable(), m.terrain_dim_playable()))
        .map(|(p, q)| json!({"cell_dim_playable": [p.x, p.y], "terrain_dim_playable": [q.x, q.y]})).unwrap_or_else(|_| json!({}));
    json!({"always": {"cell_dim_map": [a.x, a.y], "terrain_dim_map": [b.x, b.y], "cell_left_bottom": [c.x, c.y], "cell_right_top": [d.x, d.y], "terrain_left_bottom": [e.x, e.y]},
           "playable": playable})
}
fn doc(d: &DocumentHeader) -> Value {
    json!({"maybe_dimension_x1": d.maybe_dimension_x1, "maybe_dimension_y1": d.maybe_dimension_y1, "some_epoch_1": d.some_epoch_1, "some_epoch_2": d.some_epoch_2,
           "mod_info": text(d.mod_info.as_bytes()), "name": text(d.name.as_bytes()), "description_long": text(d.description_long.as_bytes()), "description_short": text(d.description_short.as_bytes())})
}
fn heights(t: &T3HeightMap) -> Value {
    json!({"width": t.width, "height": t.height, "data": t.data})
}
fn shown(r: Result<Result<(Option<usize>, Value, Value), String>, String>) -> Value {
    match r {
        Ok(Ok((at, v, d))) => json!({"k": "ok", "at": at.map(|a| vec![a]).unwrap_or_default(), "v": v, "d": d}),
        Ok(Err(m)) => json!({"k": "err", "m": m}),
        Err(m) => json!({"k": "panic", "m": m}),
    }
}
fn case(c: &Value) -> Value {
    let b = bytes(&c["b"]);
    let k = c["k"].as_str().unwrap();
    let at = |rest: &[u8]| Some(b.len() - rest.len());
    let size = MapInfo { cell_width: c["w"].as_i64().unwrap() as i32, cell_height: c["h"].as_i64().unwrap() as i32, ..Default::default() };
    let got = shown(catch(|| match k {
        "info" => MapInfo::parse(&b).map(|(r, m)| (at(r), info(&m), derived(&m))).map_err(|e| e.to_string()),
        "doc" => DocumentHeader::parse(&b).map(|(r, d)| (at(r), doc(&d), json!({}))).map_err(|e| e.to_string()),
        "heights" => T3HeightMap::parse(&b, &size).map(|(r, t)| (at(r), heights(&t), json!({}))).map_err(|e| e.to_string()),
        x => panic!("harness: {x}"),
    }));
    let mut line = json!({"k": k, "id": c["id"], "b": c["b"], "w": c["w"], "h": c["h"], "got": got, "packed": []});
    if c["pack"] == true {
        let name = match k { "info" => "MapInfo", "doc" => "DocumentHeader", _ => "t3HeightMap" };
        let file = mpq::archive(b"", &[("other".to_string(), b"other".to_vec()), (name.to_string(), b.clone()), ("another".to_string(), b"x".to_vec())]);
        let (_, mpq) = parser::parse(&file).unwrap_or_else(|e| panic!("harness: archive: {e:?}"));
        line["packed"] = json!([shown(catch(|| match k {
            "info" => MapInfo::from_mpq(&mpq, &file).map(|m| (None, info(&m), derived(&m))).map_err(|e| e.to_string()),
            "doc" => DocumentHeader::from_mpq(&mpq, &file).map(|d| (None, doc(&d), json!({}))).map_err(|e| e.to_string()),
            _ => T3HeightMap::from_mpq(&mpq, &file, &size).map(|t| (None, heights(&t), json!({}))).map_err(|e| e.to_string()),
        }))]);
    }
    line
}
/// `mapfile IN OUT`
pub fn run(input: &str, out: &str) {
    let mut w = Writer::new(out);
    for c in read_lines(input) { w.put(&case(&c)); }
}

fn place(c: &Value) -> Value {
    use s2protocol::cache_handles::map::coords::*;
    let two = |k: &str| (c[k][0].as_i64().unwrap() as i32, c[k][1].as_i64().unwrap() as i32);
    let (p, w, e) = (two("p"), two("w"), two("e"));
    let real = |m: MapCoord| json!([dyadic(m.x), dyadic(m.y)]);
    let mut line = catch(|| {
        let at = MapCoord::new(p.0 as f32 / 4096.0, p.1 as f32 / 4096.0);
        let (cell, point) = (MapCellCoord::from(at), MapTerrainCoord::from(at));
        let (centre, position) = (MapCoord::from(MapCellCoord::new(w.0, w.1)), MapCoord::from(MapTerrainCoord::new(w.0, w.1)));
        let (recell, repoint) = (MapCellCoord::from(centre), MapTerrainCoord::from(position));
        let area = MapInfo { cell_left: e.0, cell_bottom: e.1, cell_right: e.0 + 7, cell_top: e.1 + 9, cell_width: 200, cell_height: 100, ..Default::default() };
        let playable = PlayableTerrainCoord::from_map_terrain(&area, MapTerrainCoord::new(w.0, w.1));
        json!({"k": "ok", "cell": [cell.x, cell.y], "point": [point.x, point.y], "centre": real(centre), "position": real(position),
               "recell": [recell.x, recell.y], "repoint": [repoint.x, repoint.y], "playable": [playable.x, playable.y]})
    }).unwrap_or_else(|m| json!({"k": "panic", "m": m}));
    for k in ["id", "p", "w", "e"] { line[k] = c[k].clone(); }
    line
}
/// `coords IN OUT`
pub fn coords(input: &str, out: &str) {
    let mut w = Writer::new(out);
    for c in read_lines(input) { w.put(&place(&c)); }
}
