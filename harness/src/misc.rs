//! Sessions about whole-library guarantees: history independence, skipping
//! of unused content, memory, totality.
#![allow(deprecated)]
use crate::decode;
use crate::enc::*;
use crate::gen::*;
use crate::pixel;
use crate::proj::{bytes, pixels, Ctx};
use crate::rng::Rng;
use crate::scale;
use crate::util::{call, call_k, cur, fnv, peak, Out};
use aseprite_loader::binary::chunk::parse_chunk;
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::header::parse_header;
use aseprite_loader::binary::raw_file::parse_raw_file;
use aseprite_loader::loader::{decompress, AsepriteFile, LayerSelection};
use serde_json::{json, Value};

// ---- C15: history independence ---------------------------------------------

#[derive(Clone, Debug)]
enum Call {
    Image { f: usize, i: usize, len: usize, fill: usize },
    Render { f: usize, fr: usize, sel: LayerSelection, len: usize, fill: usize },
    Combined { f: usize, fr: usize, len: usize, fill: usize },
    Select { f: usize, names: Vec<String> },
    Inflate { z: Vec<u8>, len: usize },
    Info { f: usize },
}

impl Call {
    fn file(&self) -> Option<usize> {
        match self {
            Call::Image { f, .. } | Call::Render { f, .. } | Call::Combined { f, .. } | Call::Select { f, .. } | Call::Info { f } => Some(*f),
            Call::Inflate { .. } => None,
        }
    }
}

/// document with frames that repeat, or differ in a single cel component
/// `salt` only changes the content, not the layout if the compression `level` is 0;
/// `part` limits what it changes: 0 everything, 1.. the palette from entry part - 1 on,
/// 9 the opacities, 10 the last byte of the images, 11 the first
fn hist_doc(r: &mut Rng, salt: u8, level: u32, part: usize) -> Vec<u8> {
    let on = |b: bool| if b { salt } else { 0 };
    let (cw, ch) = (1 + r.below(4) as u16, 1 + r.below(3) as u16);
    let depth = r.pick(&[8u16, 16, 32]);
    let nl = 1 + r.below(3);
    let mut cs = vec![];
    if depth == 8 {
        let e: Vec<[u8; 4]> = (0..8).map(|j| {
            let s = on(part == 0 || (part < 9 && j + 1 >= part));
            [r.byte() ^ s, r.byte(), r.byte() ^ s, 255]
        }).collect();
        cs.push(palette(8, 0, 7, &e));
    }
    for i in 0..nl {
        cs.push(layer(r.below(8) as u16 | u16::from(r.chance(1, 2)), r.pick(&[0u16, 0, 0, 1]), 0, r.pick(&[0u16, 1, 3, 9, 13]), r.byte() ^ on(part == 0 || part == 9), format!("n{}", i).as_bytes(), None));
    }
    let size = |r: &mut Rng| (1 + r.below(3) as u16, 1 + r.below(3) as u16);
    let mut desc: Vec<(u16, i16, i16)> = vec![];
    for i in 0..nl {
        let (w, h) = size(r);
        let (x, y) = (r.range(-2, 3) as i16, r.range(-2, 3) as i16);
        let d = r.bytes(usize::from(w) * usize::from(h) * psize(depth));
        let n = d.len();
        let d: Vec<u8> = d
            .iter()
            .enumerate()
            .map(|(j, b)| b ^ on(part == 0 || (part == 10 && j + 1 == n) || (part == 11 && j == 0)))
            .map(|b| if depth == 8 { b & 7 } else { b })
            .collect();
        cs.push(if r.chance(1, 2) { cel_zlib(i as u16, x, y, w, h, &zlib(&d, level)) } else { cel_raw(i as u16, x, y, w, h, &d) });
        desc.push((i as u16, x, y));
    }
    let mut frames = vec![Frame::new(1, cs)];
    for _ in 0..1 + r.below(4) {
        let mut cs = vec![];
        let what = r.below(7);
        let who = r.below(nl);
        for (l, x, y) in &desc {
            let (mut x, mut y) = (*x, *y);
            if usize::from(*l) == who {
                match what {
                    0 => x = x.wrapping_add(r.pick(&[1i16, -1, 256, i16::MIN])),
                    1 => y = y.wrapping_add(r.pick(&[1i16, -1, 256, i16::MIN])),
                    2 => std::mem::swap(&mut x, &mut y),
                    3 => continue,
                    4 => {
                        // an equal looking but different image
                        let (w, h) = size(r);
                        let d = vec![0; usize::from(w) * usize::from(h) * psize(depth)];
                        cs.push(cel_raw(*l, x, y, w, h, &d));
                        continue;
                    }
                    _ => {}
                }
            }
            cs.push(cel_link(*l, x, y, 0));
        }
        frames.push(Frame::new(dur(r), cs));
    }
    let mut h = Hdr::new(cw, ch, depth);
    noise(r, &mut h, &mut frames);
    doc(r, &h, &frames)
}

/// many cels per frame; the frames differ in at most one of them
fn wide_doc(r: &mut Rng) -> Vec<u8> {
    let nl = r.pick(&[5usize, 9, 17, 18, 33, 34, 65, 70, 129, 260]);
    let mut cs = vec![];
    for i in 0..nl {
        cs.push(layer(1, 0, 0, 0, 255, format!("w{}", i % 9).as_bytes(), None));
    }
    for i in 0..nl {
        cs.push(cel_raw(i as u16, 0, 0, 1, 1, &[i as u8, 1, 2, 255]));
    }
    let mut frames = vec![Frame::new(1, cs)];
    for _ in 0..5 {
        let any = r.below(nl);
        let who = r.pick(&[0, nl - 1, nl - 1, nl - 2, nl / 2, any]);
        let what = r.below(5);
        let mut cs = vec![];
        for i in 0..nl {
            let (mut x, mut y) = (0i16, 0i16);
            if i == who {
                match what {
                    0 => x = r.pick(&[1i16, -1, 256, i16::MIN]),
                    1 => y = r.pick(&[1i16, -1, 256, i16::MIN]),
                    2 => continue,
                    3 => {
                        cs.push(cel_raw(i as u16, 0, 0, 1, 1, &[i as u8, 1, 2, 255]));
                        continue;
                    }
                    _ => {}
                }
            }
            cs.push(cel_link(i as u16, x, y, 0));
        }
        frames.push(Frame::new(dur(r), cs));
    }
    file(&Hdr::new(1, 1, 32), &frames)
}

struct Plan {
    files: Vec<Vec<u8>>,
    calls: Vec<Call>,
    order: Vec<usize>,
}
fn plan(seed: u64, id: u64) -> Option<Plan> {
    let mut r = crate::session_rng("histplan", seed, id);
    let r = &mut r;
    let level = r.pick(&[0u32, 6]);
    let mut files: Vec<Vec<u8>> = (0..r.below(2)).map(|_| hist_doc(r, 0, 6, 0)).collect();
    // two of the same layout
    let salt = 1 + r.below(7) as u8;
    let part = if r.chance(1, 2) { 0 } else { r.below(12) };
    files.push(hist_doc(&mut r.clone(), salt, level, part));
    files.push(hist_doc(r, 0, level, part));
    if r.chance(1, 2) {
        // some images of this one do not decode
        let mut cs = vec![layer(1, 0, 0, 0, 255, b"n0", None), layer(1, 0, 0, 0, 255, b"n1", None)];
        for i in 0..2 {
            let n = r.below(9);
            let mut z = zlib(&r.bytes(8 * n), level);
            let k = r.below(z.len());
            match r.below(3) {
                0 => z.truncate(k),
                1 => z[k] ^= 1 << r.below(8),
                _ => {}
            }
            cs.push(cel_zlib(i, 0, 0, 2, n as u16, &z));
        }
        files.insert(0, file(&Hdr::new(2, 2, 32), &[Frame::new(1, cs)]));
    }
    let mut calls = vec![];
    for (fi, b) in files.iter().enumerate() {
        let f = AsepriteFile::load(b).ok()?;
        let (w, h) = f.size();
        let need = usize::from(w) * usize::from(h) * 4;
        calls.push(Call::Info { f: fi });
        for i in 0..f.images.len() {
            let n = usize::from(f.images[i].width) * usize::from(f.images[i].height) * 4;
            calls.push(Call::Image { f: fi, i, len: n, fill: r.below(256) });
            if r.chance(1, 3) {
                calls.push(Call::Image { f: fi, i, len: r.below(n + 5), fill: r.below(256) });
            }
        }
        for fr in 0..f.frames.len() {
            calls.push(Call::Combined { f: fi, fr, len: need, fill: 0 });
            if r.chance(1, 3) {
                calls.push(Call::Combined { f: fi, fr, len: need + r.below(5), fill: r.below(256) });
            }
            calls.push(Call::Render { f: fi, fr, sel: LayerSelection::Visible, len: need, fill: 0 });
            let n = f.layers().len();
            let sel = match r.below(3) {
                0 => LayerSelection::All,
                _ => LayerSelection::Mask((0..n).map(|_| r.chance(1, 2)).collect()),
            };
            calls.push(Call::Render { f: fi, fr, sel, len: need + r.below(2), fill: r.below(256) });
        }
        calls.push(Call::Select { f: fi, names: vec![format!("n{}", r.below(3)), format!("n{}", r.below(4))] });
        calls.push(Call::Inflate { z: zlib(&r.bytes(9), 6), len: r.pick(&[9usize, 9, 8]) });
        // failing at different points
        let good = zlib(&r.bytes(40), r.pick(&[0u32, 6]));
        for _ in 0..r.below(3) {
            let mut z = good.clone();
            let n = z.len();
            match r.below(5) {
                0 => z.truncate(r.below(n)),
                1 => z[0] ^= 1 << r.below(8),
                2 => z[2] |= 6,
                3 => z[n - 1] ^= 1,
                _ => {
                    let i = r.below(n);
                    z[i] = r.byte();
                }
            }
            calls.push(Call::Inflate { z, len: r.pick(&[40usize, 40, 39, 41, 0]) });
        }
    }
    let mut order: Vec<usize> = vec![];
    for _ in 0..2 * calls.len() {
        order.push(r.below(calls.len()));
    }
    Some(Plan { files, calls, order })
}
fn fill_buf(len: usize, fill: usize) -> Vec<u8> {
    (0..len).map(|i| if fill == 0 { 0 } else { (i * 11 + fill) as u8 }).collect()
}
/// (key, result) of one call; the keys of equal calls are equal
fn exec(c: &Call, fs: &[&AsepriteFile<'_>]) -> Vec<(String, Value)> {
    match c {
        Call::Image { f, i, len, fill } => {
            let mut b = fill_buf(*len, *fill);
            let o = call_k(|| fs[*f].load_image(*i, &mut b), |e| format!("{:?}", e));
            // the target of a failed call is unspecified
            let h = if o.st() == "ok" { fnv(&b) } else { o.kind() };
            vec![(format!("img {} {} {} {}", f, i, len, fill), json!({"st": o.st(), "h": h}))]
        }
        Call::Render { f, fr, sel, len, fill } => {
            let mut b = fill_buf(*len, *fill);
            let o = call_k(|| fs[*f].render_frame(*fr, &mut b, sel), |e| format!("{:?}", e));
            let h = if o.st() == "ok" { fnv(&b) } else { o.kind() };
            vec![(format!("render {} {} {:?} {} {}", f, fr, sel, len, fill), json!({"st": o.st(), "h": h}))]
        }
        Call::Combined { f, fr, len, fill } => {
            let mut b = fill_buf(*len, *fill);
            let o = call_k(|| fs[*f].combined_frame_image(*fr, &mut b), |e| format!("{:?}", e));
            let h = if o.st() == "ok" { fnv(&b) } else { o.kind() };
            // renders like the visible layers
            let mut v = vec![(
                format!("render {} {} {:?} {} {}", f, fr, LayerSelection::Visible, len, fill),
                json!({"st": o.st(), "h": h}),
            )];
            if let Out::Ok(fp) = o {
                v.push((format!("fp {} {}", f, fr), json!({"st": "ok", "h": format!("{:016x}", fp)})));
            }
            v
        }
        Call::Select { f, names } => {
            let n: Vec<&str> = names.iter().map(String::as_str).collect();
            let o = call(|| Ok::<_, ()>(fs[*f].select_layers_by_name(&n)));
            let st = o.st();
            vec![(format!("sel {} {:?}", f, names), json!({"st": st, "h": format!("{:?}", o.ok())}))]
        }
        Call::Inflate { z, len } => {
            let mut b = vec![0; *len];
            let o = call_k(|| decompress(z, &mut b), |e| format!("{:?}", e));
            let h = if o.st() == "ok" { fnv(&b) } else { o.kind() };
            vec![(format!("inflate {} {}", fnv(z), len), json!({"st": o.st(), "h": h}))]
        }
        Call::Info { f } => {
            let f_ = &fs[*f];
            let o = call(|| {
                Ok::<_, ()>(format!("{:?} {} {:?} {:?} {:?}", f_.size(), f_.image_count(), f_.layers(), f_.frames(), f_.tags()))
            });
            vec![(format!("info {}", f), json!({"st": o.st(), "h": fnv(o.ok().unwrap_or_default().as_bytes())}))]
        }
    }
}
fn refs<'a, 'b>(fs: &'a [AsepriteFile<'b>]) -> Vec<&'a AsepriteFile<'b>> {
    fs.iter().collect()
}
/// one call, on freshly loaded files, in this process
pub fn alone(seed: u64, id: u64, k: usize) -> Value {
    let p = plan(seed, id).unwrap();
    let fs: Vec<_> = p.files.iter().map(|b| AsepriteFile::load(b).unwrap()).collect();
    Value::Array(exec(&p.calls[k], &refs(&fs)).into_iter().map(|(k, r)| json!({"e": "call", "k": k, "r": r})).collect())
}
pub fn hist(r: &mut Rng, id: u64, seed: u64) -> Vec<Value> {
    let Out::Ok(Some(p)) = call(|| Ok::<_, ()>(plan(seed, id))) else {
        return vec![json!({"e": "noload", "st": "err"})];
    };
    cur(id, &p.files[0]);
    let mut ev: Vec<Value> = vec![];
    let put = |ev: &mut Vec<Value>, l: Vec<(String, Value)>| {
        for (k, v) in l {
            ev.push(json!({"e": "call", "k": k, "r": v}));
        }
    };
    let fs: Vec<_> = p.files.iter().map(|b| AsepriteFile::load(b).unwrap()).collect();
    for k in &p.order {
        put(&mut ev, exec(&p.calls[*k], &refs(&fs)));
    }
    // on an instance of its own
    for c in &p.calls {
        let fresh: Vec<_> = p.files.iter().map(|b| AsepriteFile::load(b).unwrap()).collect();
        put(&mut ev, exec(c, &refs(&fresh)));
    }
    // loaded into the same memory, one after the other
    let mut slot = crate::util::Slot::new(&p.files[0]);
    for _ in 0..6 {
        let f = p.files.len() - 1 - r.below(2);
        slot.load(&p.files[f]);
        let of_f: Vec<&Call> = p.calls.iter().filter(|c| c.file() == Some(f)).collect();
        for _ in 0..4 {
            put(&mut ev, exec(r.pick(&of_f), &vec![slot.file(); p.files.len()]));
        }
    }
    // in a process of its own
    if let Ok(exe) = std::env::current_exe() {
        for _ in 0..4 {
            let k = r.below(p.calls.len());
            let out = std::process::Command::new(&exe)
                .args(["alone", &seed.to_string(), &id.to_string(), &k.to_string()])
                .output();
            match out.ok().filter(|o| o.status.success()).and_then(|o| serde_json::from_slice::<Vec<Value>>(&o.stdout).ok()) {
                Some(l) => ev.extend(l),
                None => ev.push(json!({"e": "noload", "st": "panic"})),
            }
        }
    }
    // concurrently on the shared instance
    let n = 4;
    let barrier = std::sync::Barrier::new(n);
    let mut seeds = vec![];
    for _ in 0..n {
        seeds.push(r.next());
    }
    let results: Vec<Vec<(String, Value)>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (p, fs, barrier, mut tr) = (&p, &fs, &barrier, Rng::new(*seed));
                s.spawn(move || {
                    barrier.wait();
                    let mut v = vec![];
                    for _ in 0..p.calls.len() {
                        let k = tr.below(p.calls.len());
                        v.extend(exec(&p.calls[k], &refs(fs)));
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for l in results {
        put(&mut ev, l);
    }
    // fingerprints of all frames
    let wide: Vec<Vec<u8>> = (0..usize::from(id % 3 == 0)).map(|_| wide_doc(r)).collect();
    let wide: Vec<_> = wide.iter().filter_map(|b| AsepriteFile::load(b).ok()).collect();
    for (i, f) in fs.iter().chain(&wide).enumerate() {
        let (w, h) = f.size();
        for fr in 0..f.frames.len() {
            let mut b = fill_buf(usize::from(w) * usize::from(h) * 4, r.below(256));
            let fp = call(|| f.combined_frame_image(fr, &mut b));
            let cels: Vec<Value> = f.frames[fr]
                .cels
                .iter()
                .map(|c| json!([c.image_index, c.layer_index, c.origin.0, c.origin.1, c.size.0, c.size.1]))
                .collect();
            let st = fp.st();
            // an undecodable image: there is no fingerprint
            if st == "err" && call(|| f.render_frame(fr, &mut b, &LayerSelection::Visible)).st() == "err" {
                continue;
            }
            let h = fp.ok().map(|x| format!("{:016x}", x)).unwrap_or_default();
            ev.push(json!({"e": "fp", "f": i, "st": st, "h": h, "cels": cels}));
        }
    }
    ev
}

// ---- C16: skipped content ---------------------------------------------------

/// content of everything loaded, independent of where it is stored
fn content(b: &[u8]) -> Value {
    let c = Ctx::content(b);
    let bin = call(|| {
        parse_file(b).map(|f| {
            let mut v = c.file(&f);
            // the header is reported as stored; it is compared by C03
            v["hdr"] = json!([]);
            v
        })
    });
    let bst = bin.st();
    let v = call(|| AsepriteFile::load(b).map(|f| {
        let imgs = Value::Array((0..f.images.len()).map(|i| {
            let n = usize::from(f.images[i].width) * usize::from(f.images[i].height) * 4;
            let mut buf = vec![0; n];
            let o = call(|| f.load_image(i, &mut buf));
            json!({"st": o.st(), "px": if o.st() == "ok" { bytes(&buf) } else { json!([]) }})
        }).collect());
        let (w, h) = f.size();
        let rend = Value::Array((0..f.frames.len()).flat_map(|fr| {
            [LayerSelection::Visible, LayerSelection::All].map(|s| {
                let mut buf = vec![0; usize::from(w) * usize::from(h) * 4];
                let o = call(|| f.render_frame(fr, &mut buf, &s));
                json!({"st": o.st(), "px": if o.st() == "ok" { pixels(&buf) } else { json!([]) }})
            })
        }).collect());
        json!({"view": c.view(&f), "imgs": imgs, "rend": rend})
    }));
    let vst = v.st();
    let (b, v): (Vec<Value>, Vec<Value>) = (bin.ok().into_iter().collect(), v.ok().into_iter().collect());
    json!({"e": "content", "bst": bst, "bin": b, "vst": vst, "view": v})
}
fn ty_of(c: &[u8]) -> u16 {
    u16::from_le_bytes([c[4], c[5]])
}
fn grow(c: &mut Vec<u8>, extra: &[u8]) {
    c.extend(extra);
    let n = c.len() as u32;
    c[..4].copy_from_slice(&n.to_le_bytes());
}
/// bytes to add to the end of a chunk; they may look like more of its content
fn more(r: &mut Rng, c: &[u8]) -> Vec<u8> {
    match r.below(12) {
        0 => {
            let n = r.pick(&[255usize, 256, 65500, 65536, 70000]);
            vec![r.byte(); n]
        }
        1 | 2 => vec![0; 1 + r.below(64)],
        3 | 4 if c.len() > 7 => {
            let k = 1 + r.below((c.len() - 6).min(64));
            c[c.len() - k..].to_vec()
        }
        5 => layer(1, 0, 0, 0, 255, b"more", None),
        6 => chunk(0x2020, &good_user_data(r)),
        7 | 8 => {
            let w = W::new();
            let w = match ty_of(c) {
                0x2018 => w.w(0).w(r.below(3) as u16).b(0).w(1).z(10).str(&utf8(r)),
                0x2022 => w.d(r.below(4) as u32).d(1).d(2).d(3).d(4).raw(&r.pick(&[vec![], vec![1; 8], vec![2; 16], vec![3; 24]])),
                0x2019 if r.chance(1, 2) => w.w(1).raw(&[1, 2, 3, 4]).str(b"c"),
                0x2019 => w.w(0).raw(&[r.byte(), r.byte(), r.byte(), 255]),
                0x0004 | 0x0011 => w.b(r.below(3) as u8).b(1).raw(&[r.byte(), 2, 3]),
                0x2008 => w.d(1).b(0).z(7).str(b"f"),
                0x2020 => {
                    let fl = r.pick(&[2u8, 1, 4]);
                    match fl {
                        1 => w.str(b"t"),
                        2 => w.raw(&[1, 2, 3, 4]),
                        _ => w.d(r.dword()).raw(&properties(r, 1)),
                    }
                }
                0x2004 => r.pick(&[w.clone().d(1), w.clone().z(16), w.clone().d(1).raw(&[7; 16])]),
                0x2005 => w.w(1).w(1).raw(&[1, 2, 3, 4]),
                _ => w.str(b"x"),
            };
            // once or more often
            w.done().repeat(1 + r.below(3))
        }
        _ => {
            let n = 1 + r.below(12);
            r.bytes(n)
        }
    }
}
/// offsets (in the whole chunk) of reserved or deprecated bytes
fn reserved(c: &[u8]) -> Vec<usize> {
    let ty = ty_of(c);
    let mut v: Vec<usize> = vec![];
    match ty {
        0x2004 => {
            v.extend(6 + 6..6 + 10); // default width and height
            v.extend(6 + 13..6 + 16);
        }
        0x2005 => v.extend(6 + 11..6 + 16),
        0x2018 => {
            v.extend(6 + 2..6 + 10);
            // tags: each 17 bytes and the name
            let mut p = 16;
            while p + 19 <= c.len() {
                v.extend(p + 7..p + 13);
                v.push(p + 16);
                p += 19 + usize::from(u16::from_le_bytes([c[p + 17], c[p + 18]]));
            }
        }
        0x2019 => {
            v.extend(6..10); // total size of the palette
            v.extend(18..26);
        }
        0x2022 => v.extend(14..18),
        0x2007 => v.extend(14..22),
        0x2008 => v.extend(10..18),
        0x2016 => v.extend(14..22),
        _ => {}
    }
    v
}
/// a large chunk that does not matter
fn unused_big(r: &mut Rng, n: usize) -> Vec<u8> {
    let junk = vec![r.byte(); n];
    match r.below(6) {
        0 => chunk(0x2017, &junk),
        1 => chunk(0x2006, &W::new().d(1).d(0).d(1).d(2).d(3).raw(&junk).done()),
        2 => chunk(0x2016, &W::new().s(1).s(2).w(3).w(4).z(8).str(b"m").raw(&junk).done()),
        3 => chunk(0x2023, &W::new().d(1).d(2).d(3).w(4).w(5).s(1).z(14).str(b"t").d(n as u32).raw(&junk).done()),
        4 => chunk(0x2007, &W::new().w(2).w(0).d(0).z(8).d(n as u32).raw(&junk).done()),
        _ => chunk(unknown_type(r), &junk),
    }
}
fn unused_chunk(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 20) {
        let n = r.pick(&[65500usize, 65529, 65530, 65536, 70000, 140_000]);
        return unused_big(r, n);
    }
    match r.below(6) {
        0 => {
            let ty = r.pick(&[0x2006u16, 0x2007, 0x2008, 0x2016, 0x2017, 0x2023]);
            let mut q = r.clone();
            for _ in 0..40 {
                let c = chunk(ty, &payload(&mut q, ty));
                if matches!(call(|| parse_chunk(&c).map(|_| ())), Out::Ok(())) {
                    *r = q;
                    return c;
                }
            }
            chunk(0x2017, &[])
        }
        1 => chunk(0x2006, &W::new().d(r.dword()).d(r.dword()).d(1).d(2).d(3).z(16).done()),
        2 => chunk(0x2007, &W::new().w(r.below(2) as u16).w(r.word()).d(r.dword()).z(8).done()),
        3 => {
            let n = r.below(30);
            chunk(0x2017, &r.bytes(n))
        }
        _ => {
            let t = unknown_type(r);
            let n = r.pick(&[0usize, 0, 1, 2, 7, 30, 300]);
            chunk(t, &r.bytes(n))
        }
    }
}

/// harmless changes to a document
pub fn perturb(r: &mut Rng, h: &mut Hdr, frames: &mut [Frame], count: usize) -> Vec<Value> {
    let mut ops: Vec<Value> = vec![];
    for _ in 0..count {
        let f = r.below(frames.len());
        let fr = &mut frames[f];
        let n = fr.chunks.len();
        match r.below(8) {
            0..=2 => {
                let k = r.below(n + 1);
                // not between a user data chunk and its owner
                if k < n && ty_of(&fr.chunks[k]) == 0x2020 {
                    continue;
                }
                let c = unused_chunk(r);
                ops.push(json!({"op": "insert", "f": f, "at": k, "ty": ty_of(&c)}));
                fr.chunks.insert(k, c);
                if let Some(c) = fr.new_count.as_mut() {
                    *c += 1;
                } else if let Some(c) = fr.old_count.as_mut() {
                    *c += 1;
                }
            }
            3 | 4 if n > 0 => {
                let k = r.below(n);
                let c = &mut fr.chunks[k];
                let ty = ty_of(c);
                // image data reaches to the end of the chunk
                let linked = ty == 0x2005 && c.len() >= 15 && c[13] == 1 && c[14] == 0;
                // or to the end of its stream
                let zip = ty == 0x2005 && c.len() >= 26 && c[13] == 2 && c[14] == 0 && zlen(&c[26..]).is_some();
                if ty == 0x2005 && !linked && !zip {
                    continue;
                }
                let e = more(r, c);
                grow(c, &e);
                ops.push(json!({"op": "grow", "f": f, "at": k, "ty": if linked { 1 } else if zip { 2 } else { ty }}));
            }
            5 => {
                let e = if r.chance(1, 16) { r.pick(&[255usize, 65536, 70000]) } else { 1 + r.below(20) };
                let e = if e > 99 { vec![r.byte(); e] } else { r.bytes(e) };
                fr.trailing.extend(e);
                ops.push(json!({"op": "trail", "f": f, "at": n, "ty": 0}));
            }
            6 if n > 0 => {
                let k = r.below(n);
                let c = &mut fr.chunks[k];
                let v = reserved(c);
                if v.is_empty() {
                    continue;
                }
                // anything, or small numbers of some width
                let small = r.pick(&[0usize, 0, 1, 2, 4]);
                let shift = r.below(2);
                for (n, i) in v.into_iter().enumerate() {
                    if small > 0 {
                        c[i] = if (n + shift) % small == 0 { r.below(9) as u8 } else { 0 };
                    } else if r.chance(2, 3) {
                        c[i] = r.byte();
                    }
                }
                ops.push(json!({"op": "reserved", "f": f, "at": k, "ty": ty_of(c)}));
            }
            _ => {
                if r.chance(1, 2) {
                    h.ignore = [r.byte(), r.byte(), r.byte()];
                    h.future = r.bytes(84);
                } else {
                    h.speed = r.word();
                    fr.future = [r.byte(), r.byte()];
                }
                ops.push(json!({"op": "header", "f": f, "at": 0, "ty": 0}));
            }
        }
    }
    ops
}

pub fn skip(r: &mut Rng, id: u64) -> Vec<Value> {
    let (h, frames) = good_doc(r);
    let base = file(&h, &frames);
    cur(id, &base);
    let mut ev = vec![content(&base)];
    for _ in 0..2 {
        let (mut h, mut frames) = (h.clone(), frames.clone());
        let before: Vec<Vec<u16>> = frames.iter().map(|f| f.chunks.iter().map(|c| ty_of(c)).collect()).collect();
        let n = 1 + r.below(6);
        let mut ops = perturb(r, &mut h, &mut frames, n);
        // a lot of it
        if id % 24 == 7 || r.chance(1, 40) {
            let f = r.below(frames.len());
            let fr = &mut frames[f];
            let n = fr.chunks.len();
            let at: Vec<usize> = (0..=n).filter(|k| *k == n || ty_of(&fr.chunks[*k]) != 0x2020).collect();
            let k = r.pick(&at);
            let (c, many) = if r.chance(1, 2) { (unused_big(r, (1 << 24) + 40), 1) } else { (chunk(r.pick(&[0x2017, 0x7777]), &[]), r.pick(&[300usize, 65536, 70000])) };
            ops.push(json!({"op": "insert", "f": f, "at": k, "ty": ty_of(&c), "n": many}));
            fr.chunks.splice(k..k, std::iter::repeat_n(c, many));
            if fr.new_count.is_some() || fr.chunks.len() > 65535 {
                // the frame may have declared fewer than it has
                let had = fr.new_count.filter(|c| *c != 0).unwrap_or(fr.old_count.map_or(n as u32, u32::from));
                fr.new_count = Some(had + many as u32);
            } else if let Some(c) = fr.old_count.as_mut() {
                *c += many as u16;
            }
        }
        // the numbers of chunks may be given in either encoding
        for f in frames.iter_mut() {
            if f.trailing.is_empty() && f.chunks.len() < 65536 && r.chance(1, 3) {
                f.old_count = Some(f.chunks.len() as u16);
                f.new_count = None;
            }
        }
        let b = file(&h, &frames);
        cur(id, &b);
        ev.push(json!({"e": "perturb", "types": before, "ops": ops}));
        ev.push(content(&b));
    }
    ev
}

// ---- C17: memory -------------------------------------------------------------

fn nested_bomb(r: &mut Rng, depth: usize) -> Vec<u8> {
    // vectors in vectors, each declaring billions of elements
    let mut v = vec![];
    for _ in 0..depth {
        v.extend(r.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x1000_0000]).to_le_bytes());
        v.extend(17u16.to_le_bytes());
    }
    v
}
pub fn alloc(r: &mut Rng, id: u64) -> Vec<Value> {
    let huge = |r: &mut Rng| r.pick(&[0xffff_ffffu32, 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 0x0400_0000, 0x0010_0000]);
    if id % 20 >= 16 {
        return alloc_fields(r, id);
    }
    if id % 20 == 15 {
        return alloc_crowd(r);
    }
    let id = id - id / 20 * 4;
    let mut h = Hdr::new(r.word(), r.word(), r.pick(&[8u16, 16, 32]));
    let mut nest = 0usize;
    let mut cs: Vec<Vec<u8>> = vec![];
    let mut new_count = None;
    let mut old_count = None;
    let tail = r.below(40);
    let tail = r.bytes(tail);
    let n = huge(r);
    match id % 16 {
        0 => new_count = Some(n),
        1 => old_count = Some(0xffff),
        2 => cs.push(chunk(0x2018, &W::new().w(0xffff).z(8).raw(&tail).done())),
        3 => cs.push(chunk(0x2022, &W::new().d(n).d(r.below(4) as u32).d(0).str(b"s").raw(&tail).done())),
        4 => cs.push(chunk(0x2008, &W::new().d(n).z(8).raw(&tail).done())),
        5 => {
            let last = r.pick(&[255u32, n, 0xff]);
            cs.push(chunk(0x2019, &W::new().d(n).d(0).d(last).z(8).raw(&tail).done()));
        }
        6 => cs.push(chunk(r.pick(&[0x0004u16, 0x0011]), &W::new().w(0xffff).raw(&tail).done())),
        7 | 8 => {
            // properties: number of maps, of properties, of vector elements
            let body = match r.below(3) {
                0 => W::new().raw(&tail).done(),
                1 => W::new().d(0).d(n).raw(&tail).done(),
                _ => {
                    let t = r.below(20) as u16;
                    nest = 2;
                    W::new().d(0).d(1).str(b"p").w(17).d(n).w(t).raw(&tail).done()
                }
            };
            let maps = if r.chance(1, 2) { n } else { 1 };
            cs.push(chunk(0x2020, &W::new().d(4).d(body.len() as u32 + 8).d(maps).raw(&body).done()));
        }
        9 => {
            nest = r.pick(&[3usize, 10, 40, 100]);
            let b = W::new().d(0).d(n).str(b"p").w(17).raw(&nested_bomb(r, nest)).done();
            cs.push(chunk(0x2020, &W::new().d(4).d(b.len() as u32 + 8).d(n).raw(&b).done()));
        }
        10 => {
            // images that declare to be large
            cs.push(layer(1, 0, 0, 0, 255, b"l", None));
            cs.push(cel_raw(0, 0, 0, 65535, 65535, &tail));
            cs.push(cel_zlib(0, 0, 0, 65535, 65535, &zlib(&tail, 6)));
        }
        11 => cs.push(chunk(0x2023, &W::new().d(1).d(3).d(n).w(65535).w(65535).s(1).z(14).str(b"t").d(n).d(n).d(n).raw(&tail).done())),
        12 => cs.push(chunk(0x2007, &W::new().w(2).w(1).d(0).z(8).d(n).raw(&tail).done())),
        13 => {
            // many of them
            for _ in 0..30 {
                nest = 1;
                let b = W::new().d(0).d(n).done();
                cs.push(chunk(0x2020, &W::new().d(4).d(b.len() as u32 + 8).d(n).raw(&b).done()));
                cs.push(chunk(0x2022, &W::new().d(0).d(0).d(0).str(b"s").done()));
            }
        }
        14 => {
            // real content in quantity: everything allowed is proportional
            let k = 20 + r.below(200);
            for i in 0..k {
                match r.below(4) {
                    0 => cs.push(layer(1, 0, 0, 0, 255, format!("{}", i).as_bytes(), None)),
                    1 => cs.push(tags(&vec![(0, 0, 0, 0, vec![]); 1 + r.below(40)])),
                    2 => cs.push(chunk(0x2017, &[])),
                    _ => {
                        nest = 2;
                        let m = 200;
                        let b = W::new().d(0).d(1).str(b"p").w(17).d(m).w(0).raw(&[1, 0, 1].repeat(m as usize)).done();
                        cs.push(chunk(0x2020, &W::new().d(4).d(b.len() as u32 + 8).d(1).raw(&b).done()));
                    }
                }
            }
        }
        _ => {
            h.frames = 0xffff;
            cs.push(chunk(0x2004, &W::new().w(1).w(0).w(0).w(0).w(0).w(0).b(1).z(3).w(0xffff).raw(&tail).done()));
        }
    }
    let mut fr = Frame::new(1, cs);
    fr.new_count = new_count;
    fr.old_count = old_count;
    fr.trailing = if r.chance(1, 2) { tail.clone() } else { vec![] };
    let mut frames = vec![fr];
    if id % 16 == 15 {
        frames[0].chunks.clear();
        for _ in 0..r.below(300) {
            frames.push(Frame::new(1, vec![]));
        }
    }
    let mut b = file(&h, &frames);
    if id % 64 == 40 {
        // frame size
        b[128..132].copy_from_slice(&n.to_le_bytes());
    }
    cur(id, &b);
    let (o, p) = peak(|| {
        call(|| AsepriteFile::load(&b).map(|f| (f.file.layers.len(), f.file.frames.len())))
    });
    let st = o.st();
    let (l, f) = o.ok().unwrap_or((0, 0));
    let (_, p2) = peak(|| call(|| parse_raw_file(&b).map(|_| ())));
    json_alloc(p.max(p2), b.len(), l, f, nest, st)
}
/// Well formed files with very many of one or two things: what is allocated
/// for one of them must not grow with the number of the others
fn alloc_crowd(r: &mut Rng) -> Vec<Value> {
    let depth = r.pick(&[8u16, 32, 32, 16]);
    let h = Hdr::new(r.word(), r.word(), depth);
    let mut kinds = [false; 12];
    for _ in 0..1 + r.below(2) {
        kinds[r.below(12)] = true;
    }
    let most = r.pick(&[300usize, 2500]);
    let f = if kinds[0] { 300 + r.below(most) } else { 1 };
    let l = if kinds[1] { 300 + r.below(most) } else { 1 };
    let (f, l) = if f * l > 200_000 { (300, 400) } else { (f, l) };
    let n = 300 + r.below(most);
    let mut cs = vec![];
    if depth == 8 {
        cs.push(palette(1, 0, 0, &[[1, 2, 3, 4]]));
    }
    for i in 0..l {
        cs.push(layer(1, 0, 0, 0, 255, if kinds[2] { b"a long name of a layer" } else { b"l" }, None));
        if kinds[3] && i < 500 {
            cs.push(user_text(b"t"));
        }
    }
    if kinds[4] {
        cs.push(tags(&vec![(0, r.below(f) as u16, 0, 0, b"t".to_vec()); n]));
    }
    if kinds[5] {
        for _ in 0..n {
            cs.push(tags(&[(0, 65535, 0, 0, vec![])]));
        }
    }
    if kinds[6] {
        for _ in 0..n {
            cs.push(slice_simple(b"s"));
        }
    }
    if kinds[7] {
        cs.push(chunk(0x2022, &W::new().d(n as u32).d(3).d(0).str(b"s").raw(&vec![0; n * 44]).done()));
    }
    if kinds[8] {
        for _ in 0..n {
            cs.push(match r.below(3) {
                0 => palette(256, 255, 255, &[[1, 2, 3, 4]]),
                1 => old_palette(4, &[(255, vec![[1, 2, 3]])]),
                _ => old_palette(17, &[(0, vec![[1, 2, 3]])]),
            });
        }
    }
    if kinds[9] {
        let b = W::new().d(0).d(n as u32).raw(&[1, 0, b'p', 3, 0, 7].repeat(n)).done();
        cs.push(chunk(0x2020, &W::new().d(4).d(b.len() as u32 + 8).d(1).raw(&b).done()));
        let b = [0u8; 8].repeat(n);
        cs.push(chunk(0x2020, &W::new().d(4).d(b.len() as u32 + 8).d(n as u32).raw(&b).done()));
    }
    if kinds[10] {
        cs.push(chunk(0x2008, &W::new().d(n as u32).z(8).raw(&[0; 14].repeat(n)).done()));
    }
    let px = vec![7; psize(depth)];
    let linked = r.chance(1, 3);
    let mut frames = vec![];
    for i in 0..f {
        let mut c = if i == 0 { std::mem::take(&mut cs) } else { vec![] };
        let cels = if f * l > 20_000 && i > 0 { 1 } else { l };
        for k in 0..cels {
            let again = if kinds[11] && i == 0 { 1 + n / l } else { 1 };
            for _ in 0..again {
                c.push(if linked && i > 0 { cel_link(k as u16, 0, 0, 0) } else { cel_raw(k as u16, 0, 0, 1, 1, &px) });
            }
        }
        frames.push(Frame::new(dur(r), c));
    }
    let b = file(&h, &frames);
    cur(0, &b[..b.len().min(4096)]);
    let (o, p) = peak(|| call(|| AsepriteFile::load(&b).map(|f| (f.file.layers.len(), f.file.frames.len()))));
    let st = o.st();
    let (l, f) = o.ok().unwrap_or((0, 0));
    let (_, p2) = peak(|| call(|| parse_raw_file(&b).map(|_| ())));
    json_alloc(p.max(p2), b.len(), l, f, 2, st)
}
/// Fields of well formed files that are made huge one after the other: the
/// worst of them
fn alloc_fields(r: &mut Rng, id: u64) -> Vec<Value> {
    let mut doc = good_file(r);
    if r.chance(1, 8) {
        doc.extend(good_doc(r).1.iter().flat_map(|f| f.enc()));
    }
    let mut worst: std::collections::BTreeMap<(usize, usize), (usize, &str)> = Default::default();
    for _ in 0..60 {
        let mut b = doc.clone();
        let n = r.pick(&[1usize, 2, 2, 4, 4, 4]);
        let at = r.below(b.len() - n);
        let v = r.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0xffff_ff00, 0x7f7f_7f7f, 0xff00_fff0]).to_le_bytes();
        b[at..at + n].copy_from_slice(&v[..n]);
        cur(id, &b);
        let (o, p) = peak(|| call(|| AsepriteFile::load(&b).map(|f| (f.file.layers.len(), f.file.frames.len()))));
        let st = o.st();
        let key = o.ok().unwrap_or((0, 0));
        let (o2, p2) = peak(|| call(|| parse_raw_file(&b).map(|_| ())));
        let p = p.max(p2);
        let e = worst.entry(key).or_insert((0, "ok"));
        if st == "panic" || o2.st() == "panic" {
            e.1 = "panic";
        }
        e.0 = e.0.max(p);
    }
    worst.into_iter().flat_map(|((l, f), (p, st))| json_alloc(p, doc.len(), l, f, 8, st)).collect()
}
fn json_alloc(p: usize, len: usize, l: usize, f: usize, nest: usize, st: &str) -> Vec<Value> {
    vec![json!({"e": "alloc", "peak": p.min(2_000_000_000), "len": len, "layers": l, "frames": f, "nest": nest, "st": st})]
}

// ---- C01, C02: totality --------------------------------------------------------

#[derive(Default)]
struct Tally {
    ok: usize,
    err: usize,
    panic: usize,
    bad: Vec<u8>,
}
impl Tally {
    fn add(&mut self, st: &str, input: &[u8]) {
        match st {
            "ok" => self.ok += 1,
            "err" => self.err += 1,
            _ => {
                if self.panic == 0 {
                    self.bad = input[..input.len().min(300_000)].to_vec();
                }
                self.panic += 1;
            }
        }
    }
    fn ev(self, op: &str) -> Value {
        json!({"e": "tally", "op": op, "ok": self.ok, "err": self.err, "panic": self.panic, "bad": self.bad})
    }
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(5) {
        if b.is_empty() {
            return;
        }
        let n = b.len();
        let i = if r.chance(1, 4) { r.below(n.min(128)) } else { r.below(n) };
        match r.below(9) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
            2 => {
                let v = r.word().to_le_bytes();
                let m = n.min(i + 2);
                b[i..m].copy_from_slice(&v[..m - i]);
            }
            3 => {
                let v = r.dword().to_le_bytes();
                let m = n.min(i + 4);
                b[i..m].copy_from_slice(&v[..m - i]);
            }
            4 => b.truncate(i),
            5 => {
                let k = 1 + r.below(8);
                let x = r.bytes(k);
                for (j, v) in x.into_iter().enumerate() {
                    b.insert(i + j, v);
                }
            }
            6 => {
                let m = (i + 1 + r.below(8)).min(n);
                b.drain(i..m);
            }
            7 => {
                let m = (i + r.below(40)).min(n);
                let s = b[i..m].to_vec();
                let j = r.below(b.len());
                for (k, v) in s.into_iter().enumerate() {
                    b.insert(j + k, v);
                }
            }
            _ => b[i] = r.byte(),
        }
    }
}
fn soup(r: &mut Rng) -> Vec<u8> {
    let h = if r.chance(1, 2) { header(r) } else { Hdr::new(4, 4, r.pick(&[8u16, 16, 32])) };
    let nf = 1 + r.below(3);
    let frames: Vec<Frame> = (0..nf)
        .map(|_| {
            let n = r.below(10);
            Frame::new(
                1,
                (0..n)
                    .map(|_| {
                        let t = if r.chance(1, 12) { unknown_type(r) } else { r.pick(&CHUNK_TYPES) };
                        if r.chance(1, 3) {
                            chunk(t, &damaged_payload(r, t))
                        } else {
                            let mut p = payload(r, t);
                            if t == 0x2005 && r.chance(3, 4) {
                                // a plausible layer
                                p[0] = r.below(3) as u8;
                                p[1] = 0;
                            }
                            chunk(t, &p)
                        }
                    })
                    .collect(),
            )
        })
        .collect();
    file(&h, &frames)
}
fn deep(r: &mut Rng) -> Vec<u8> {
    let d = r.pick(&[60usize, 64, 65, 70, 200, 1000, 20_000, 60_000]);
    let mut body: Vec<u8> = W::new().d(0).d(1).str(b"p").done();
    let kind = r.below(3);
    if kind == 1 {
        body.extend(18u16.to_le_bytes());
    } else {
        body.extend(17u16.to_le_bytes());
    }
    for _ in 0..d {
        match kind {
            0 => body.extend(W::new().d(1).w(17).done()),
            1 => body.extend(W::new().d(1).str(b"").w(18).done()),
            _ => body.extend(W::new().d(1).w(0).w(17).done()),
        }
    }
    body.extend(W::new().d(0).w(1).done());
    let b = W::new().d(4).d(body.len() as u32 + 8).d(1).raw(&body).done();
    file(&Hdr::new(1, 1, 32), &[Frame::new(1, vec![layer(1, 0, 0, 0, 255, b"l", None), chunk(0x2020, &b)])])
}

fn loads(b: &[u8], t: &mut Tally, p: &mut Tally) {
    cur(1, b);
    let o = call(|| {
        AsepriteFile::load(b).map(|f| {
            let _ = (f.size(), f.layers().len(), f.frames().len(), f.tags().len(), f.image_count(), f.slices().len());
        })
    });
    t.add(o.st(), b);
    let o = call(|| parse_file(b).map(|_| ()));
    p.add(o.st(), b);
}

/// a string of one wide character after up to three bytes: cut anywhere,
/// some of them break
fn long_text(r: &mut Rng) -> Vec<u8> {
    let n = r.pick(&[40usize, 130, 300, 1030, 1030, 4100, 8200, 33_000, 65_535]);
    let c = r.pick(&["\u{e9}", "\u{e9}", "\u{20ac}", "\u{1f600}"]).as_bytes();
    let mut s = vec![b'x'; r.below(c.len())];
    while s.len() + c.len() <= n {
        s.extend(c);
    }
    s
}
/// inputs whose strings or counts are far larger than usual
fn grand(r: &mut Rng, k: u64) -> Vec<u8> {
    if k % 3 == 0 {
        return scale::bytes(r, k / 3);
    }
    let depth = r.pick(&[8u16, 16, 32]);
    let mut cs = vec![palette(1, 0, 0, &[[1, 2, 3, 4]])];
    let t = long_text(r);
    cs.push(layer(1, r.pick(&[0u16, 0, 1, 2]), 0, 0, 255, &t, Some(1)));
    cs.push(layer(1, 0, 0, 0, 255, b"l", None));
    for _ in 0..1 + r.below(4) {
        let (t, u) = (long_text(r), long_text(r));
        cs.push(match r.below(9) {
            0 => user_text(&t),
            1 => tags(&[(0, 0, 0, 0, t), (0, 1, 0, 0, u)]),
            2 => slice_simple(&t),
            3 => chunk(0x2019, &W::new().d(1).d(0).d(0).z(8).w(1).z(4).str(&t).done()),
            4 => chunk(0x2008, &W::new().d(2).z(8).d(1).b(0).z(7).str(&t).d(2).b(1).z(7).str(&u).done()),
            5 => chunk(0x2023, &W::new().d(1).d(4).d(1).w(1).w(1).w(1).z(14).str(&t).done()),
            6 => chunk(0x2016, &W::new().w(1).w(1).w(1).w(1).z(8).str(&t).z(1).done()),
            _ => {
                let body = W::new().d(0).d(2).str(&t).w(13).str(&u).str(b"v").w(17).d(2).w(13).str(&t).str(&u).done();
                chunk(0x2020, &W::new().d(4).d(body.len() as u32 + 8).d(1).raw(&body).done())
            }
        });
    }
    let d = vec![0u8; psize(depth)];
    cs.push(match r.below(6) {
        0 => cel_link(0, 0, 0, 9),
        1 => cel_link(2, 0, 0, 0),
        2 => chunk(0x2005, &W::new().w(0).w(0).w(0).b(255).w(9).w(0).z(9).done()),
        _ => cel_raw(r.below(2) as u16, 0, 0, 1, 1, &d),
    });
    let mut b = file(&Hdr::new(1, 1, depth), &[Frame::new(1, cs)]);
    if r.chance(1, 4) {
        mutate(r, &mut b);
    }
    b
}

pub fn total(r: &mut Rng, id: u64) -> Vec<Value> {
    let (mut t, mut p) = (Tally::default(), Tally::default());
    if id % 5 == 4 {
        for k in 0..12 {
            let b = grand(r, id / 5 * 12 + k);
            loads(&b, &mut t, &mut p);
        }
        return vec![t.ev("load"), p.ev("parse_file")];
    }
    match id % 4 {
        0 => {
            // a file and all its truncations, all single byte changes
            let base = good_file(r);
            for n in 0..=base.len() {
                loads(&base[..n], &mut t, &mut p);
            }
            let step = 1 + base.len() / 400;
            for i in 0..base.len() {
                if i % step != id as usize / 4 % step {
                    continue;
                }
                for v in [0u8, 1, 0x7f, 0x80, 0xff] {
                    let mut b = base.clone();
                    b[i] = v;
                    loads(&b, &mut t, &mut p);
                }
                for v in [0u32, 1, 3, 0x7fff_ffff, 0xffff_ffff] {
                    let mut b = base.clone();
                    let m = b.len().min(i + 4);
                    b[i..m].copy_from_slice(&v.to_le_bytes()[..m - i]);
                    loads(&b, &mut t, &mut p);
                }
                for v in [0u16, 1, 0xff, 0xffff, 0x8000] {
                    let mut b = base.clone();
                    let m = b.len().min(i + 2);
                    b[i..m].copy_from_slice(&v.to_le_bytes()[..m - i]);
                    loads(&b, &mut t, &mut p);
                }
            }
        }
        1 => {
            for _ in 0..40 {
                let base = good_file(r);
                for _ in 0..20 {
                    let mut b = base.clone();
                    mutate(r, &mut b);
                    loads(&b, &mut t, &mut p);
                }
            }
        }
        2 => {
            for _ in 0..400 {
                let mut b = match r.below(6) {
                    0 => decode::view_doc(r, 1),
                    1 => pixel::render_doc(r, true),
                    _ => soup(r),
                };
                if r.chance(1, 4) {
                    mutate(r, &mut b);
                }
                loads(&b, &mut t, &mut p);
            }
        }
        _ => {
            for _ in 0..10 {
                let b = deep(r);
                loads(&b, &mut t, &mut p);
            }
            let mut c = Tally::default();
            for _ in 0..1500 {
                // the parsers of the parts
                let ty = r.pick(&CHUNK_TYPES);
                let b = chunk(ty, &damaged_payload(r, ty));
                cur(2, &b);
                c.add(call(|| parse_chunk(&b).map(|_| ())).st(), &b);
                let n = r.below(150);
                let b = if r.chance(1, 2) { r.bytes(n) } else { header(r).enc()[..n.min(128)].to_vec() };
                cur(3, &b);
                c.add(call(|| parse_header(&b).map(|_| ())).st(), &b);
            }
            return vec![t.ev("load"), p.ev("parse_file"), c.ev("parts")];
        }
    }
    vec![t.ev("load"), p.ev("parse_file")]
}

/// decode and render everything in a loaded file
fn everything(r: &mut Rng, b: &[u8], ti: &mut Tally, tr: &mut Tally) {
    cur(4, b);
    let Out::Ok(f) = call(|| AsepriteFile::load(b)) else {
        return;
    };
    let mut heavy = vec![];
    for (i, img) in f.images.iter().enumerate() {
        let need = usize::from(img.width) * usize::from(img.height) * 4;
        heavy.push(need > 1 << 24);
        let lens = if need > 1 << 24 { vec![0, 100] } else { vec![need, 0, need.saturating_sub(1), need + 3] };
        for l in lens {
            let mut buf = vec![r.byte(); l];
            let o = call(|| f.load_image(i, &mut buf));
            ti.add(o.st(), b);
        }
    }
    let (w, h) = f.size();
    let need = usize::from(w) * usize::from(h) * 4;
    for (i, fr) in f.frames().iter().enumerate().take(6) {
        if fr.cels.iter().any(|c| heavy[c.image_index]) {
            continue;
        }
        let lens = if need > 1 << 22 { vec![0, 5000] } else { vec![need, need.saturating_sub(1), 0, need + 7] };
        for l in lens {
            let fill = r.byte();
            let n = f.layers().len();
            for s in [LayerSelection::All, LayerSelection::Visible, LayerSelection::Mask(vec![true]), LayerSelection::Mask(vec![true; n + 3]), LayerSelection::Mask(vec![])] {
                let mut buf = vec![fill; l];
                let o = call(|| f.render_frame(i, &mut buf, &s));
                tr.add(o.st(), b);
            }
            let mut buf = vec![fill; l];
            let o = call(|| f.combined_frame_image(i, &mut buf));
            tr.add(o.st(), b);
        }
    }
}
/// a large image, intact or not, on a canvas that shows some of it
fn large(r: &mut Rng, ti: &mut Tally, tr: &mut Tally) {
    let (w, h) = r.pick(&[(256u16, 256u16), (257, 256), (300, 300), (65535, 1), (1, 65535), (65535, 2), (2, 65535), (40000, 2), (2, 40000), (1000, 70), (400, 333)]);
    let depth = r.pick(&[8u16, 16, 32]);
    let n = usize::from(w) * usize::from(h) * psize(depth);
    let mut d = vec![0u8; n];
    for (i, x) in d.iter_mut().enumerate() {
        *x = (i * 7 + i / 300) as u8;
    }
    let mut cs = vec![palette(1, 0, 0, &[[1, 2, 3, 4]]), layer(1, 0, 0, r.below(19) as u16, r.pick(&[255u8, 128]), b"l", None)];
    let (x, y) = (r.pick(&[0i16, 0, 0, -1, 1, 32767, -32768, -32767]), r.pick(&[0i16, 0, 0, -1, 1, 32767, -32768, -32767]));
    let fault = r.below(5);
    if fault == 1 {
        d.truncate(n - 1 - r.below(n.min(70_000)));
    } else if fault == 2 {
        d.extend(vec![1; 1 + r.below(70_000)]);
    }
    cs.push(if r.chance(1, 3) {
        cel_raw(0, x, y, w, h, &d)
    } else {
        let mut z = zlib(&d, r.pick(&[0u32, 1, 6]));
        if fault == 3 {
            z.truncate(r.below(z.len()));
        } else if fault == 4 {
            let i = r.below(z.len());
            z[i] ^= 1 << r.below(8);
        }
        cel_zlib(0, x, y, w, h, &z)
    });
    let (cw, ch) = r.pick(&[(1u16, 1u16), (w, h), (w, h), (w, 1), (1, h), (300, 300)]);
    let b = file(&Hdr::new(cw, ch, depth), &[Frame::new(1, cs)]);
    cur(7, &b);
    let Out::Ok(f) = call(|| AsepriteFile::load(&b)) else {
        return;
    };
    let mut buf = vec![r.byte(); usize::from(w) * usize::from(h) * 4];
    ti.add(call(|| f.load_image(0, &mut buf)).st(), &b);
    let mut buf = vec![r.byte(); usize::from(cw) * usize::from(ch) * 4];
    tr.add(call(|| f.render_frame(0, &mut buf, &LayerSelection::All)).st(), &b);
}

pub fn totalr(r: &mut Rng, id: u64) -> Vec<Value> {
    let (mut ti, mut tr, mut td) = (Tally::default(), Tally::default(), Tally::default());
    if id % 5 == 4 {
        for _ in 0..3 {
            large(r, &mut ti, &mut tr);
        }
        return vec![ti.ev("load_image"), tr.ev("render")];
    }
    match id % 4 {
        0 => {
            for _ in 0..25 {
                let base = if r.chance(1, 2) { good_file(r) } else { pixel::render_doc(r, true) };
                for k in 0..12 {
                    let mut b = base.clone();
                    if k > 0 {
                        // the end of the file is where the pixels are
                        mutate(r, &mut b);
                    }
                    everything(r, &b, &mut ti, &mut tr);
                }
            }
        }
        1 => {
            // one frame, cels with data of any length, any kind of stream
            for _ in 0..300 {
                let depth = r.pick(&[8u16, 16, 32, 24, 1]);
                let mut cs = vec![];
                if depth == 8 {
                    cs.push(palette(2, 0, 1, &[[1, 2, 3, 4], [5, 6, 7, 8]]));
                }
                let nl = 1 + r.below(3);
                for _ in 0..nl {
                    cs.push(layer(r.below(2) as u16, r.pick(&[0u16, 0, 0, 1, 2]), 0, if r.chance(1, 6) { r.word() } else { r.below(19) as u16 }, r.byte(), b"x", Some(1)));
                }
                for l in 0..nl {
                    let (w, h) = (r.below(5) as u16, r.below(5) as u16);
                    let n = usize::from(w) * usize::from(h) * psize(depth);
                    let d = match r.below(3) {
                        0 => r.bytes(n),
                        1 => {
                            let m = r.below(2 * n + 3);
                            r.bytes(m)
                        }
                        _ => {
                            let m = r.below(12);
                            r.bytes(m)
                        }
                    };
                    let (x, y) = (r.range(-5, 5) as i16, r.word() as i16);
                    cs.push(match r.below(3) {
                        0 => cel_raw(l as u16, x, y, w, h, &d),
                        1 => cel_zlib(l as u16, x, y, w, h, &d),
                        _ => {
                            let mut z = zlib(&d, 6);
                            if r.chance(1, 2) {
                                let i = r.below(z.len());
                                z[i] = r.byte();
                            }
                            cel_zlib(l as u16, x, y, w, h, &z)
                        }
                    });
                }
                let b = file(&Hdr::new(r.below(5) as u16, r.below(5) as u16, depth), &[Frame::new(1, cs)]);
                everything(r, &b, &mut ti, &mut tr);
            }
        }
        2 => {
            // every blend mode over all combinations of boundary values
            const V: [u8; 9] = [0, 1, 63, 64, 127, 128, 191, 254, 255];
            let mode = (id / 4 % 20) as u16;
            let op = V[(id / 80 % 9) as usize];
            let mut front = vec![];
            let mut back = vec![];
            for _ in 0..6561 {
                front.push([r.pick(&V), r.pick(&V), r.pick(&V), r.pick(&V)]);
                back.push([r.pick(&V), r.pick(&V), r.pick(&V), r.pick(&V)]);
            }
            let (w, h) = (81u16, 81u16);
            let b = file(&Hdr::new(w, h, 32), &[Frame::new(1, vec![layer(1, 0, 0, mode, op, b"l", None), cel_raw(0, 0, 0, w, h, &front.concat())])]);
            cur(5, &b);
            let mut buf = back.concat();
            let o = call(|| {
                let f = AsepriteFile::load(&b).map_err(|_| ())?;
                f.render_frame(0, &mut buf, &LayerSelection::All).map_err(|_| ())
            });
            tr.add(o.st(), &b);
        }
        _ => {
            for _ in 0..2000 {
                let n = r.below(20);
                let k = r.below(30);
                let d = r.bytes(k);
                let mut z = if r.chance(1, 2) { zlib(&d, 6) } else { d };
                if !z.is_empty() && r.chance(1, 2) {
                    mutate(r, &mut z);
                }
                cur(6, &z);
                let mut buf = vec![0; n];
                td.add(call(|| decompress(&z, &mut buf)).st(), &z);
            }
            // documents of the view family, indices at the extremes
            for _ in 0..40 {
                let b = decode::view_doc(r, 1);
                everything(r, &b, &mut ti, &mut tr);
            }
        }
    }
    vec![ti.ev("load_image"), tr.ev("render"), td.ev("decompress")]
}

/// everything, for an input recorded before an abort
pub fn drive(d: &[u8]) -> Value {
    let (mut t, mut p, mut ti, mut tr) = (Tally::default(), Tally::default(), Tally::default(), Tally::default());
    loads(d, &mut t, &mut p);
    everything(&mut Rng::new(1), d, &mut ti, &mut tr);
    json!([t.ev("load"), p.ev("parse_file"), ti.ev("load_image"), tr.ev("render")])
}
