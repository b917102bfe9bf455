//! Spec to implementation: every line of the input is a behaviour the model
//! checker enumerated, with the input bytes and the projection the
//! specification expects.
use crate::pixel::{ev_blend, kind, prefill};
use crate::proj::{bytes, pixels, Ctx};
use crate::util::{call, call_k, cur, peak};
use aseprite_loader::binary::chunk::parse_chunk;
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::raw_file::parse_raw_file;
use aseprite_loader::loader::{decompress, AsepriteFile, LayerSelection};
use serde::Deserialize;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn input(v: &Value) -> Vec<u8> {
    v["in"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}
fn sel(v: &Value) -> LayerSelection {
    match v["k"].as_str().unwrap() {
        "Visible" => LayerSelection::Visible,
        "All" => LayerSelection::All,
        _ => LayerSelection::Mask(v["m"].as_array().unwrap().iter().map(|b| b == 1).collect()),
    }
}
/// kinds of errors that are told apart
fn group(k: &str) -> &str {
    match k {
        "InvalidImageData" | "DecompressError" => "data",
        "TargetBufferTooSmall" => "small",
        "UnsupportedColorDepth" => "depth",
        k => k,
    }
}
/// what the library does with the input of a behaviour
pub fn observe(b: &Value) -> Value {
    let d = input(b);
    cur(0, &d);
    let c = Ctx::of(&d);
    let pack = |st: &str, r: Option<Value>| json!({"st": st, "r": r.into_iter().collect::<Vec<_>>()});
    match b["op"].as_str().unwrap() {
        "chunk" => {
            let o = call(|| parse_chunk(&d).map(|(rest, ch)| json!({"used": d.len() - rest.len(), "c": c.chunk(&ch)})));
            pack(o.st(), o.ok())
        }
        "raw" => {
            let o = call(|| parse_raw_file(&d).map(|f| c.raw(&f)));
            pack(o.st(), o.ok())
        }
        "file" => {
            let o = call(|| parse_file(&d).map(|f| c.file_nopal(&f)));
            pack(o.st(), o.ok())
        }
        // the first n colors
        "pal" => {
            let n = b["n"].as_u64().unwrap() as usize;
            let o = call(|| parse_file(&d).map(|f| {
                let mut v = c.file(&f)["pal"].clone();
                if let Some(p) = v.get_mut(0).and_then(|p| p.as_array_mut()) {
                    p.truncate(n);
                }
                v
            }));
            pack(o.st(), o.ok())
        }
        "view" => {
            let o = call(|| AsepriteFile::load(&d).map(|f| c.view(&f)));
            pack(o.st(), o.ok())
        }
        "render" => {
            let o = call(|| {
                let f = AsepriteFile::load(&d).map_err(|_| ())?;
                let mut buf: Vec<u8> = b["bg"].as_array().unwrap().iter().flat_map(|p| p.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>()).collect();
                f.render_frame(b["f"].as_u64().unwrap() as usize, &mut buf, &sel(&b["sel"])).map_err(|_| ())?;
                Ok::<_, ()>(pixels(&buf))
            });
            pack(o.st(), o.ok())
        }
        // decompress into n bytes
        "inflate" => {
            let mut buf = prefill(b["n"].as_u64().unwrap() as usize, 7);
            let o = call_k(|| decompress(&d, &mut buf), kind);
            match o.st() {
                "ok" => json!({"st": "ok", "r": [bytes(&buf)]}),
                st => json!({"st": st, "r": [group(&o.kind())]}),
            }
        }
        // image i into a buffer of n bytes; an error with what was written:
        // 0 nothing behind the image's own bytes, and nothing at all if the
        // buffer was too small
        "image" => {
            let f = match AsepriteFile::load(&d) {
                Ok(f) => f,
                Err(_) => return json!({"st": "noload", "r": []}),
            };
            let (n, fill) = (b["n"].as_u64().unwrap() as usize, b["fill"].as_u64().unwrap() as usize);
            let i = b["i"].as_u64().unwrap() as usize;
            let mut buf = prefill(n, fill);
            let o = call_k(|| f.load_image(i, &mut buf), kind);
            match o.st() {
                "ok" => json!({"st": "ok", "r": [bytes(&buf)]}),
                st => {
                    let k = o.kind();
                    let k = group(&k);
                    let own = if k == "small" { 0 } else { usize::from(f.images[i].width) * usize::from(f.images[i].height) * 4 };
                    json!({"st": st, "r": [k, u8::from(buf.get(own..) != prefill(n, fill).get(own..))]})
                }
            }
        }
        // loading stays within the bound
        "alloc" => {
            let (o, p) = peak(|| call(|| AsepriteFile::load(&d).map(|_| ())));
            let (o2, p2) = peak(|| call(|| parse_raw_file(&d).map(|_| ())));
            let p = p.max(p2);
            if o.st() != "panic" && o2.st() != "panic" && p as u64 <= b["bound"].as_u64().unwrap() {
                return b["exp"].clone();
            }
            json!({"st": o.st(), "r": [p]})
        }
        // a row of pixels; exp has the acceptable values of each
        "blend" => {
            let row = |k: &str| -> Vec<[u8; 4]> {
                b[k].as_array().unwrap().iter().map(|p| std::array::from_fn(|i| p[i].as_u64().unwrap() as u8)).collect()
            };
            let e = ev_blend(b["mode"].as_u64().unwrap() as u16, b["opacity"].as_u64().unwrap() as u8, &row("back"), &row("front"));
            if e["st"] != "ok" {
                return pack(e["st"].as_str().unwrap(), None);
            }
            let alts = b["exp"]["r"][0].as_array().unwrap();
            let got = e["out"].as_array().unwrap();
            if got.len() == alts.len() && got.iter().zip(alts).all(|(g, a)| a.as_array().unwrap().contains(g)) {
                return b["exp"].clone();
            }
            pack("ok", Some(e["out"].clone()))
        }
        // calls on two files that share a buffer
        "seq" => {
            let px = |v: &Value| -> Vec<u8> { v.as_array().unwrap().iter().flat_map(|p| p.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>()).collect() };
            let data: Vec<Vec<u8>> = b["files"].as_array().unwrap().iter().map(|f| input(&json!({"in": f}))).collect();
            let files: Vec<AsepriteFile<'_>> = match data.iter().map(|d| AsepriteFile::load(d)).collect::<Result<_, _>>() {
                Ok(f) => f,
                Err(_) => return json!({"st": "noload", "r": []}),
            };
            // memory that one file after the other is loaded from
            let slots: Vec<Vec<u8>> = b["slots"].as_array().unwrap().iter().map(|f| input(&json!({"in": f}))).collect();
            let mut slot = crate::util::Slot::new(&slots[0]);
            let fill = px(&b["fill"]);
            let mut buf = fill.clone();
            let mut outs = vec![];
            for q in b["calls"].as_array().unwrap() {
                let n = |k: &str| q[k].as_u64().unwrap() as usize;
                if q["c"] == "load" {
                    let ok = slot.load(&slots[n("a")]);
                    outs.push(json!({"st": if ok { "ok" } else { "noload" }, "buf": pixels(&buf)}));
                    continue;
                }
                let f = if n("f") == 2 { slot.file() } else { &files[n("f")] };
                let room = n("n") * 4;
                let o = match q["c"].as_str().unwrap() {
                    "render" => {
                        let s = if q["sel"]["k"] == "Name" {
                            let names: Vec<String> = q["sel"]["m"].as_array().unwrap().iter().map(|x| String::from_utf8(input(&json!({"in": x}))).unwrap()).collect();
                            f.select_layers_by_name(&names.iter().map(String::as_str).collect::<Vec<_>>())
                        } else {
                            sel(&q["sel"])
                        };
                        call_k(|| f.render_frame(n("a"), &mut buf[..room], &s), kind)
                    }
                    "image" => call_k(|| f.load_image(n("a"), &mut buf[..room]), kind),
                    _ => {
                        buf.copy_from_slice(&fill);
                        call_k(|| Ok(()), kind)
                    }
                };
                let k = o.kind();
                let st = if o.st() == "err" { group(&k) } else { o.st() };
                if st == "data" {
                    buf.copy_from_slice(&fill);
                }
                outs.push(json!({"st": st, "buf": pixels(&buf)}));
            }
            json!({"st": "ok", "r": [outs]})
        }
        o => panic!("unknown op {}", o),
    }
}
/// the part of a result that the property under examination speaks about
fn focus(prop: &str, op: &str, v: &Value) -> Value {
    fn each(v: &Value, f: impl Fn(&Value) -> Value) -> Value {
        Value::Array(v.as_array().map(|a| a.iter().map(f).collect()).unwrap_or_default())
    }
    fn strip(v: &Value) -> Value {
        match v {
            Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| *k != "ud").map(|(k, v)| (k.clone(), strip(v))).collect()),
            Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
            v => v.clone(),
        }
    }
    let ud = |x: &Value| x["ud"].clone();
    let r = match (prop, op) {
        ("C06", "file") => strip(&v["r"]),
        ("C07", "file") => each(&v["r"], |f| json!({"ud": f["ud"], "layers": each(&f["layers"], ud),
            "tags": each(&f["tags"], ud), "slices": each(&f["slices"], ud),
            "cels": each(&f["frames"], |f| each(&f["cels"], |c| each(c, ud)))})),
        ("C03", "raw") => each(&v["r"], |f| json!({"hdr": f["hdr"], "frames": each(&f["frames"],
            |f| json!({"dur": f["dur"], "types": each(&f["chunks"], |c| json!([c["t"], c["code"]]))}))})),
        _ => return v.clone(),
    };
    json!({"st": v["st"], "r": r})
}
pub fn run(inp: &str, out: &str) -> i32 {
    let f = std::io::BufReader::new(std::fs::File::open(inp).unwrap());
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let prop = std::env::var("FOCUS").unwrap_or_default();
    let (mut n, mut bad) = (0u64, 0u64);
    for line in f.lines() {
        let line = line.unwrap();
        let mut de = serde_json::Deserializer::from_str(&line);
        de.disable_recursion_limit();
        let b = Value::deserialize(&mut de).unwrap();
        let got = observe(&b);
        n += 1;
        let exp = &b["exp"];
        if got != *exp && focus(&prop, b["op"].as_str().unwrap(), &got) != focus(&prop, b["op"].as_str().unwrap(), exp) {
            bad += 1;
            if bad <= 20 {
                writeln!(w, "{}", json!({"behaviour": b, "got": got})).unwrap();
            }
        }
    }
    w.flush().unwrap();
    println!("{}", json!({"replayed": n, "mismatches": bad}));
    0
}
