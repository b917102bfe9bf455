//! Sessions about parsing: chunks, framing, assembly, palette, view.
use crate::enc::*;
use crate::gen::*;
use crate::proj::Ctx;
use crate::rng::Rng;
use crate::util::{call, cur, Out};
use aseprite_loader::binary::chunk::parse_chunk;
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::raw_file::parse_raw_file;
use aseprite_loader::loader::AsepriteFile;
use serde_json::{json, Value};
use std::sync::OnceLock;

fn list<T>(x: Option<T>) -> Vec<T> {
    x.into_iter().collect()
}

// ---- single chunks ---------------------------------------------------------

pub fn ev_chunk(b: &[u8]) -> Value {
    cur(0, b);
    let c = Ctx::of(b);
    let o = call(|| parse_chunk(b).map(|(rest, ch)| (b.len() - rest.len(), c.chunk(&ch))));
    let st = o.st();
    let r = list(o.ok());
    json!({"e": "chunk", "in": b, "st": st, "r": r.iter().map(|(u, v)| json!({"used": u, "c": v})).collect::<Vec<_>>()})
}

pub fn chunk(r: &mut Rng, _id: u64, ud: bool) -> Vec<Value> {
    let ty = if ud {
        0x2020
    } else {
        let t = r.pick(&CHUNK_TYPES);
        match t {
            0x2020 => unknown_type(r),
            t => t,
        }
    };
    let p = if r.chance(1, 3) { damaged_payload(r, ty) } else { payload(r, ty) };
    let mut b = chunk_bytes(ty, &p);
    match r.below(12) {
        0 => {
            // size field off
            let d = r.range(-8, 8);
            let s = (p.len() as i64 + 6 + d).max(0) as u32;
            b[..4].copy_from_slice(&s.to_le_bytes());
        }
        1 => {
            // what follows is not part of the chunk, whatever it is
            let n = 1 + r.below(12);
            match r.below(5) {
                0 => b.extend(r.bytes(n)),
                1 => b.extend(vec![0; n]),
                2 => b.extend(vec![r.byte(); n]),
                3 => b.extend(b.clone()),
                _ => {
                    let c = sized_chunk(r);
                    b.extend(c);
                }
            }
        }
        2 => {
            // the declared size cuts the payload short, what follows belongs to the next chunk
            let s = r.range(0, p.len() as i64 + 6) as u32;
            b[..4].copy_from_slice(&s.to_le_bytes());
        }
        _ => {}
    }
    vec![ev_chunk(&b)]
}
fn chunk_bytes(ty: u16, p: &[u8]) -> Vec<u8> {
    crate::enc::chunk(ty, p)
}

/// Systematic chunks: every flag bit, every enumeration code near the known
/// ones, extreme values, every truncation of sample chunks.
pub fn sys_list(ud: bool) -> &'static Vec<Vec<u8>> {
    static L: [OnceLock<Vec<Vec<u8>>>; 2] = [OnceLock::new(), OnceLock::new()];
    L[usize::from(ud)].get_or_init(|| if ud { sys_ud() } else { sys_other() })
}
pub fn sys_chunk(_r: &mut Rng, id: u64, ud: bool) -> Vec<Value> {
    if id == 0 && !ud {
        // which types are known at all
        let mut known = vec![];
        for ty in 0..=0xffffu16 {
            let b = chunk_bytes(ty, &[0; 64]);
            let c = Ctx::of(&b);
            let o = call(|| parse_chunk(&b).map(|(rest, ch)| (rest.len(), c.chunk(&ch))));
            let as_unknown = matches!(&o, crate::util::Out::Ok((0, v)) if *v == json!({"t": "Unsupported", "code": ty}));
            if !as_unknown {
                known.push(ty);
            }
        }
        let mut ev = vec![json!({"e": "types", "known": known})];
        ev.extend(crate::proj::codes());
        return ev;
    }
    let l = sys_list(ud);
    l.get(id as usize).map(|b| vec![ev_chunk(b)]).unwrap_or_default()
}

/// chunks with more elements than sixteen bits count
pub fn huge_chunk(r: &mut Rng, id: u64, ud: bool) -> Vec<Value> {
    let n = 65536 + r.below(40) as u32;
    let b = match (ud, id % 5) {
        (false, 0) => {
            let mut w = W::new().d(n).d(0).d(0).str(b"many");
            for i in 0..n {
                w = w.d(i).d(i * 3).d(0).d(1).d(2);
            }
            chunk_bytes(0x2022, &w.done())
        }
        (false, 1) => {
            let mut w = W::new().d(n).z(8);
            for i in 0..n {
                w = w.d(i << 7).b((i % 3) as u8).z(7).str(if i % 2 == 0 { b"a" } else { b"" });
            }
            chunk_bytes(0x2008, &w.done())
        }
        (false, 2) => tags(&(0..65535u32).map(|i| (i as u16, 65535, 0, i as u16, vec![b'a'; (i % 3) as usize])).collect::<Vec<_>>()),
        (false, 3) => {
            let p: Vec<(u8, Vec<[u8; 3]>)> = (0..65535u32).map(|i| (i as u8, vec![[i as u8, (i >> 8) as u8, 7]])).collect();
            old_palette(r.pick(&[0x0004, 0x0011]), &p)
        }
        (false, _) => {
            // a name and a bitmap that reach far
            let s = vec![b'm'; 65535];
            chunk_bytes(0x2016, &W::new().s(1).s(2).w(3).w(4).z(8).str(&s).z(n as usize).done())
        }
        (true, 0) => ud_props(&[(0, vec![(b"v".to_vec(), 17, W::new().d(n).w(3).raw(&r.bytes(n as usize)).done()), (b"n".to_vec(), 3, vec![1])])]),
        (true, 1) => ud_props(&[(0, (0..n).map(|i| (vec![b'a'; (i % 2) as usize], 3, vec![i as u8])).collect())]),
        (true, 2) => ud_props(&(0..n).map(|i| (i, vec![])).collect::<Vec<_>>()),
        (true, 3) => {
            let mut w = W::new().d(n).w(0);
            for i in 0..n {
                w = w.w(3).b(i as u8);
            }
            ud_props(&[(0, vec![(b"v".to_vec(), 17, w.done()), (b"n".to_vec(), 3, vec![1])])])
        }
        (true, _) => {
            let m = W::new().d(n).raw(&(0..n).flat_map(|i| W::new().str(b"").w(3).b(i as u8).done()).collect::<Vec<_>>()).done();
            ud_props(&[(0, vec![(b"m".to_vec(), 18, m), (b"n".to_vec(), 3, vec![1])])])
        }
    };
    vec![ev_chunk(&b)]
}

fn bits(n: u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n).map(|i| 1u32 << i).collect();
    v.push(0);
    v.push(if n == 32 { u32::MAX } else { (1 << n) - 1 });
    // all combinations of the low bits
    v.extend(0..64u32);
    v
}
fn codes16() -> Vec<u16> {
    let mut v: Vec<u16> = (0..40).collect();
    v.extend([127, 128, 255, 256, 257, 258, 259, 0x0102, 0x0300, 0x1200, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff]);
    v
}

fn sys_other() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]]; // index 0 is the type census
    let add = |v: &mut Vec<Vec<u8>>, ty: u16, w: W| v.push(chunk_bytes(ty, &w.done()));
    for f in bits(16) {
        v.push(layer(f as u16, 0, 1, 2, 3, b"ab", None));
    }
    for t in codes16() {
        v.push(layer(1, t, 7, 0, 9, b"n", Some(0x0403_0201)));
        v.push(layer(1, 0, 7, t, 9, b"n", None));
        v.push(layer(1, 2, t, t, 9, b"n", Some(u32::from(t) << 8)));
        // cel types
        add(&mut v, 0x2005, cel_head(1, -2, 3, 4, t, -5).raw(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]).raw(&[17; 40]));
        // color profile types
        add(&mut v, 0x2007, W::new().w(t).w(1).d(0x0102_0304).z(8).d(3).raw(b"icc"));
    }
    for f in bits(16) {
        add(&mut v, 0x2007, W::new().w(1).w(f as u16).d(0xfffe_0102).z(8));
        add(&mut v, 0x2019, W::new().d(9).d(3).d(4).z(8).w(f as u16).raw(&[1, 2, 3, 4]).str(b"x").w(0).raw(&[5, 6, 7, 8]).z(20));
    }
    for f in bits(32) {
        add(&mut v, 0x2006, W::new().d(f).d(0x0001_0002).d(0x0003_0004).d(0xffff_0005).d(6).z(16));
        add(&mut v, 0x2022, W::new().d(1).d(f).d(0).str(b"s").d(1).d(2).d(3).d(4).d(5).d(6).d(7).d(8).d(9).d(10).d(11));
        add(&mut v, 0x2023, W::new().d(1).d(f).d(3).w(4).w(5).s(-6).z(14).str(b"t").d(7).d(8).d(3).raw(b"abcdefgh"));
    }
    // enumerations of one byte: all codes, inside one chunk each
    let mut w = W::new().w(256).z(8);
    for i in 0..256u16 {
        w = w.w(i).w(i).b(i as u8).w(i * 3).z(6).raw(&[i as u8, 1, 2]).b(0).str(b"t");
    }
    add(&mut v, 0x2018, w);
    let mut w = W::new().d(256).z(8);
    for i in 0..256u32 {
        w = w.d(i * 0x0101_0101).b(i as u8).z(7).str(b"f");
    }
    add(&mut v, 0x2008, w);
    // tag ranges
    for (a, b) in [(0, 0), (0, 0xffff), (0xffff, 0xffff), (1, 0), (0xffff, 0), (5, 4), (255, 256), (256, 255)] {
        v.push(tags(&[(0, 1, 0, 0, b"ok".to_vec()), (a, b, 0, 0xffff, b"r".to_vec())]));
    }
    // palette ranges
    for (a, b) in [(0u32, 0u32), (0, 255), (255, 255), (254, 255), (1, 0), (255, 0), (0, 256), (256, 256), (255, 256), (0x100, 0x101), (0, 0x100), (0xffff_ff00, 0xffff_ffff), (0x1_0000, 0x1_0001), (0x100_0000, 0x100_0000), (0x100, 3), (10, 200)] {
        let n = if b < 256 && a <= b { b - a + 1 } else { 3 };
        for size in [n, 0, 1, 256, 0xffff_ffff] {
            let e: Vec<[u8; 4]> = (0..n).map(|i| [i as u8, 1, 2, 255 - i as u8]).collect();
            v.push(palette(size, a, b, &e));
        }
    }
    // old palettes: count 0 means 256
    for ty in [0x0004u16, 0x0011] {
        for n in [1usize, 2, 63, 64, 254, 255, 256] {
            let c: Vec<[u8; 3]> = (0..n).map(|i| [i as u8, (i * 7) as u8, (i / 2) as u8]).collect();
            v.push(old_palette(ty, &[(n as u8, c.clone()), (255, c[..1].to_vec())]));
        }
        v.push(old_palette(ty, &[]));
    }
    // strings that might be normalised
    for s in STRINGS.iter().map(|s| s.as_bytes()) {
        v.push(layer(1, 0, 0, 0, 255, s, None));
        v.push(slice_simple(s));
        v.push(tags(&[(0, 0, 0, 0, s.to_vec()), (1, 1, 0, 0, b"next".to_vec())]));
        add(&mut v, 0x2016, W::new().s(1).s(2).w(3).w(4).z(8).str(s).raw(b"data"));
        add(&mut v, 0x2008, W::new().d(2).z(8).d(1).b(0).z(7).str(s).d(2).b(1).z(7).str(b"next"));
        add(&mut v, 0x2019, W::new().d(2).d(0).d(1).z(8).w(1).raw(&[1, 2, 3, 4]).str(s).w(0).raw(&[5, 6, 7, 8]));
        add(&mut v, 0x2023, W::new().d(1).d(1).d(3).w(4).w(5).s(-6).z(14).str(s).d(7).d(8));
    }
    // many elements
    for n in [255u32, 256, 257, 600] {
        let mut w = W::new().d(n).d(0).d(0).str(b"many");
        for i in 0..n {
            w = w.d(i).d(i * 3).d(0).d(1).d(2);
        }
        add(&mut v, 0x2022, w);
        let mut w = W::new().d(n).z(8);
        for i in 0..n {
            w = w.d(i << 7).b((i % 3) as u8).z(7).str(if i % 2 == 0 { b"a" } else { b"" });
        }
        add(&mut v, 0x2008, w);
        v.push(tags(&(0..n).map(|i| (i as u16, (2 * i) as u16, 0, i as u16, vec![b'a'; (i % 3) as usize])).collect::<Vec<_>>()));
        let p: Vec<(u8, Vec<[u8; 3]>)> = (0..n).map(|i| (i as u8, vec![[i as u8, (i >> 8) as u8, 7]; 1 + i as usize % 2])).collect();
        v.push(old_palette(0x0004, &p));
        v.push(old_palette(0x0011, &p));
    }
    // strings of every interesting length
    for n in [0usize, 1, 2, 127, 128, 255, 256, 257, 511, 512, 1000, 32767, 32768, 65535] {
        let s: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        v.push(layer(1, 0, 0, 0, 255, &s, None));
        v.push(slice_simple(&s));
        v.push(tags(&[(0, 0, 0, 0, s.clone())]));
        add(&mut v, 0x2016, W::new().s(1).s(2).w(3).w(4).z(8).str(&s).raw(b"data"));
    }
    // every two byte string, by lead byte
    for a in 0..=255u8 {
        for b in [0u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff] {
            if a >= 0x80 && (a >= 0xc0 || b == 0x80) {
                v.push(slice_simple(&[a, b]));
                if a >= 0xe0 {
                    v.push(slice_simple(&[a, b, 0x80]));
                    v.push(slice_simple(&[a, b, 0x80, 0x80]));
                }
            }
        }
    }
    // truncations of sample chunks, with a consistent and with the original size
    for ty in CHUNK_TYPES.iter().filter(|t| **t != 0x2020) {
        for k in 0..3u64 {
            let mut r = crate::session_rng("systrunc", u64::from(*ty), k);
            let mut p = payload(&mut r, *ty);
            for _ in 0..200 {
                if p.len() < 90 && (k == 0 || p.len() > 12) {
                    break;
                }
                p = payload(&mut r, *ty);
            }
            p.truncate(120);
            for n in 0..=p.len() {
                v.push(chunk_bytes(*ty, &p[..n]));
            }
            let full = chunk_bytes(*ty, &p);
            for n in 0..full.len().min(14) {
                v.push(full[..n].to_vec());
            }
            v.push(full[..full.len() - 1].to_vec());
            for s in 0..12u32 {
                let mut b = full.clone();
                b[..4].copy_from_slice(&s.to_le_bytes());
                v.push(b);
            }
            for s in [0x7fff_ffffu32, 0x8000_0000, 0xffff_ffff, full.len() as u32 + 1] {
                let mut b = full.clone();
                b[..4].copy_from_slice(&s.to_le_bytes());
                v.push(b);
            }
        }
    }
    v
}

fn ud_props(maps: &[(u32, Vec<(Vec<u8>, u16, Vec<u8>)>)]) -> Vec<u8> {
    let mut m = W::new();
    for (k, ps) in maps {
        m = m.d(*k).d(ps.len() as u32);
        for (n, t, v) in ps {
            m = m.str(n).w(*t).raw(v);
        }
    }
    let m = m.done();
    chunk_bytes(0x2020, &W::new().d(4).d(m.len() as u32 + 8).d(maps.len() as u32).raw(&m).done())
}

fn sys_ud() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut r = crate::session_rng("sysud", 1, 1);
    let body = W::new().str(b"text").raw(&[1, 2, 3, 4]).d(8 + 8 + 8).d(2).d(0).d(0).d(9).d(0).done();
    for f in bits(32) {
        v.push(chunk_bytes(0x2020, &W::new().d(f).raw(&body).done()));
    }
    // one value of every type, and of every vector element type; with extremes
    for t in 1..=19u16 {
        for k in 0..6 {
            let val = value_of(&mut r, t, 2);
            let val = match (t, k) {
                (1..=12 | 14..=16 | 19, 1) => vec![0; val.len()],
                (1..=10 | 14..=16 | 19, 2) => vec![255; val.len()],
                (1..=12 | 14..=16 | 19, 3) => (1..=val.len() as u8).collect(),
                _ => val,
            };
            v.push(ud_props(&[(0, vec![(b"p".to_vec(), t, val.clone())])]));
            v.push(ud_props(&[(7, vec![(b"p".to_vec(), t, val.clone()), (b"q".to_vec(), 3, vec![5])]), (8, vec![])]));
            // homogeneous vector
            let n = [0usize, 1, 2, 3, 1, 2][k];
            let mut w = W::new().d(n as u32).w(t);
            for j in 0..n {
                w = w.raw(&if k > 3 { value_of(&mut r, t, 2) } else if j == 0 { val.clone() } else { value_of(&mut r, t, 2) });
            }
            v.push(ud_props(&[(0, vec![(b"v".to_vec(), 17, w.clone().done()), (b"z".to_vec(), 1, vec![1])])]));
            // vector of vectors
            let w2 = W::new().d(2).w(17).raw(&w.0).raw(&w.0);
            v.push(ud_props(&[(0, vec![(b"v".to_vec(), 17, w2.done())])]));
            // mixed vector
            let mut w = W::new().d(n as u32).w(0);
            for _ in 0..n {
                w = w.w(t).raw(&val);
            }
            v.push(ud_props(&[(1, vec![(b"m".to_vec(), 17, w.done())])]));
            // nested map
            let m = W::new().d(2).str(b"a").w(t).raw(&val).str(b"b").w(t).raw(&val).done();
            v.push(ud_props(&[(1, vec![(b"m".to_vec(), 18, m.clone())])]));
            let mm = W::new().d(2).w(18).raw(&m).raw(&m).done();
            v.push(ud_props(&[(1, vec![(b"m".to_vec(), 17, mm), (b"after".to_vec(), 5, vec![1, 2])])]));
        }
        // truncations of a chunk with one such value
        let val = value_of(&mut r, t, 2);
        let full = ud_props(&[(3, vec![(b"k".to_vec(), t, val)])]);
        if full.len() < 200 {
            for n in 6..full.len() {
                // declared size of the maps kept: the chunk is too short
                v.push(chunk_bytes(0x2020, &full[6..n]));
                // declared size adapted: the content is short
                if n >= 18 {
                    let mut p = full[6..n].to_vec();
                    let s = (n - 6 - 4) as u32;
                    p[4..8].copy_from_slice(&s.to_le_bytes());
                    v.push(chunk_bytes(0x2020, &p));
                }
            }
        }
    }
    // special numbers
    for t in [11u16, 12] {
        for val in special_floats(t) {
            v.push(ud_props(&[(0, vec![(b"p".to_vec(), t, val.clone())])]));
            let w = W::new().d(3).w(t).raw(&val).raw(&val).raw(&val);
            v.push(ud_props(&[(0, vec![(b"v".to_vec(), 17, w.done())])]));
            v.push(ud_props(&[(0, vec![(b"m".to_vec(), 17, W::new().d(1).w(0).w(t).raw(&val).done())])]));
        }
    }
    // unknown type codes, at top level, as vector element, nested
    for t in [0u16, 20, 21, 0x100, 0x101, 0x10, 0x1100, 0xffff, 0x8001] {
        v.push(ud_props(&[(0, vec![(b"p".to_vec(), t, vec![0; 16])])]));
        let w = W::new().d(1).w(t).z(16).done();
        v.push(ud_props(&[(0, vec![(b"p".to_vec(), 17, w)])]));
        let w = W::new().d(0).w(t).done();
        v.push(ud_props(&[(0, vec![(b"p".to_vec(), 17, w)])]));
        let w = W::new().d(1).str(b"x").w(t).z(16).done();
        v.push(ud_props(&[(0, vec![(b"p".to_vec(), 18, w)])]));
    }
    // sizes and counts
    for size in (0..20u32).chain([0x7fff_ffff, 0x8000_0007, 0xffff_fff8, 0xffff_ffff]) {
        for count in [0u32, 1, 2, 0xffff_ffff] {
            v.push(chunk_bytes(0x2020, &W::new().d(4).d(size).d(count).d(5).d(0).z(4).done()));
        }
    }
    // depth
    for d in [1usize, 2, 3, 5, 10, 20, 40, 63, 64, 65, 66, 80] {
        for kind in 0..3 {
            let mut inner: (u16, Vec<u8>) = (3, vec![42]);
            for _ in 0..d {
                inner = match kind {
                    0 => (18, W::new().d(1).str(b"k").w(inner.0).raw(&inner.1).done()),
                    1 => (17, W::new().d(1).w(inner.0).raw(&inner.1).done()),
                    _ => (17, W::new().d(1).w(0).w(inner.0).raw(&inner.1).done()),
                };
            }
            v.push(ud_props(&[(0, vec![(b"d".to_vec(), inner.0, inner.1)])]));
        }
    }
    // strings
    for s in STRINGS.iter().map(|s| s.as_bytes()) {
        v.push(chunk_bytes(0x2020, &W::new().d(3).str(s).raw(&[9, 8, 7, 6]).done()));
        v.push(ud_props(&[(0, vec![(s.to_vec(), 13, W::new().str(s).done()), (b"n".to_vec(), 3, vec![1])])]));
        v.push(ud_props(&[(0, vec![(b"v".to_vec(), 17, W::new().d(2).w(13).str(s).str(b"x").done())])]));
    }
    // many values, many names, many maps
    for n in [255usize, 256, 257, 600] {
        v.push(ud_props(&[(0, (0..n).map(|i| (format!("{}", i).into_bytes(), 3, vec![i as u8])).collect())]));
        v.push(ud_props(&[(0, vec![(b"v".to_vec(), 17, W::new().d(n as u32).w(5).raw(&vec![7; 2 * n]).done()), (b"n".to_vec(), 3, vec![1])])]));
        v.push(ud_props(&(0..n).map(|i| (i as u32, vec![])).collect::<Vec<_>>()));
        // the same name again
        v.push(ud_props(&[(0, (0..n.min(257)).map(|i| (b"same".to_vec(), 3, vec![i as u8])).collect())]));
    }
    for n in [0usize, 1, 255, 256, 300, 65535] {
        let s: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        v.push(chunk_bytes(0x2020, &W::new().d(3).str(&s).raw(&[9, 8, 7, 6]).done()));
        v.push(ud_props(&[(0, vec![(s.clone(), 13, W::new().str(&s).done())])]));
    }
    v
}

// ---- whole files, raw ------------------------------------------------------

pub fn ev_raw(b: &[u8], with_input: bool) -> Value {
    cur(0, b);
    let c = Ctx::of(b);
    let o = call(|| parse_raw_file(b).map(|f| c.raw(&f)));
    let st = o.st();
    let input: &[u8] = if with_input { b } else { &[] };
    json!({"e": "raw", "in": input, "st": st, "r": list(o.ok())})
}
pub fn ev_file(b: &[u8], pal: bool) -> Value {
    cur(0, b);
    let c = Ctx::of(b);
    let o = call(|| parse_file(b).map(|f| if pal { c.file(&f) } else { c.file_nopal(&f) }));
    let st = o.st();
    json!({"e": "file", "st": st, "r": list(o.ok())})
}
pub fn ev_load(b: &[u8]) -> Value {
    cur(0, b);
    let c = Ctx::of(b);
    let o = call(|| AsepriteFile::load(b).map(|f| c.view(&f)));
    let st = o.st();
    json!({"e": "load", "in": b, "st": st, "r": list(o.ok())})
}

/// a chunk of a special size
fn sized_chunk(r: &mut Rng) -> Vec<u8> {
    let n = r.pick(&[6usize, 7, 8, 9, 10, 16, 255, 256, 256, 256, 257, 512]);
    let v = r.pick(&[0u8, 1, 0xff]);
    chunk_bytes(r.pick(&[0x2017u16, 0x2017, 0x7777, 0]), &vec![v; n - 6])
}
fn small_chunk(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 12) {
        return sized_chunk(r);
    }
    let ty = match r.below(8) {
        0 => unknown_type(r),
        1 => 0x2017,
        2 => 0x2007,
        3 => 0x2016,
        4 => 0x2004,
        5 => 0x2005,
        _ => r.pick(&CHUNK_TYPES),
    };
    for _ in 0..8 {
        let p = payload(r, ty);
        if p.len() < 60 {
            return chunk_bytes(ty, &p);
        }
    }
    chunk_bytes(0x2017, &[])
}

/// the file whose truncations and byte changes are enumerated
pub fn frame_base() -> Vec<u8> {
    let h = Hdr::new(3, 2, 32);
    let c1 = layer(1, 0, 0, 0, 255, b"a", None);
    let c2 = chunk_bytes(0x2017, &[]);
    let mut f2 = Frame::new(7, vec![chunk_bytes(0x7777, &[1])]);
    f2.new_count = Some(1);
    f2.old_count = Some(0xffff);
    f2.trailing = vec![9, 9];
    file(&h, &[Frame::new(5, vec![c1, c2]), f2])
}

pub fn frame(r: &mut Rng, id: u64) -> Vec<Value> {
    let base = frame_base();
    let n = base.len() as u64;
    if id <= n {
        return vec![ev_raw(&base[..id as usize], true)];
    }
    // every byte of the framing changed
    let k = (id - n - 1) as usize;
    let muts = [0u8, 1, 2, 3, 5, 0x80, 0xff];
    if k < base.len() * muts.len() {
        let mut b = base.clone();
        let (i, m) = (k / muts.len(), muts[k % muts.len()]);
        b[i] = match m {
            2 => b[i].wrapping_add(1),
            3 => b[i].wrapping_sub(1),
            5 => b[i] ^ 0x10,
            m => m,
        };
        return vec![ev_raw(&b, true)];
    }
    let h = header(r);
    let nf = match r.below(24) {
        0 => 0,
        1 => 20 + r.below(40),
        _ => 1 + r.below(4),
    };
    let mut body = vec![];
    let mut starts = vec![];
    for _ in 0..nf {
        let nc = if nf > 9 {
            r.below(2)
        } else if r.chance(1, 30) {
            250 + r.below(20)
        } else {
            r.below(6)
        };
        let mut f = Frame::new(
            r.word(),
            (0..nc)
                .map(|_| if nc > 9 { chunk_bytes(0x2017, &[]) } else { small_chunk(r) })
                .collect(),
        );
        f.future = [r.byte(), r.byte()];
        let n = nc as u32;
        match r.below(16) {
            0..=5 => {}
            6..=8 => {
                f.new_count = Some(n);
                f.old_count = Some(r.pick(&[0xffff, n as u16, 0, 1, n as u16 + 1]));
            }
            9 => f.old_count = Some((n as u16).saturating_sub(1)),
            10 => {
                f.old_count = Some(n as u16);
                f.new_count = Some(n.saturating_sub(1));
            }
            11 => f.old_count = Some(n as u16 + 1),
            12 => f.new_count = Some(n + 1),
            13 => f.new_count = Some(r.dword()),
            14 => f.old_count = Some(r.word()),
            _ => {
                f.old_count = Some(0);
                f.new_count = Some(n);
            }
        }
        if r.chance(1, 6) {
            let k = 1 + r.below(12);
            f.trailing = r.bytes(k);
        }
        if r.chance(1, 40) {
            f.magic = r.word();
        }
        starts.push(128 + body.len());
        let mut e = f.enc();
        if r.chance(1, 25) {
            let s = r.pick(&[0u32, 1, 3, 4, 5, 15, 16, 17, 0x7fff_ffff, 0xffff_ffff]);
            e[..4].copy_from_slice(&s.to_le_bytes());
        } else if r.chance(1, 12) {
            let s = (e.len() as i64 + r.range(-7, 7)).max(0) as u32;
            e[..4].copy_from_slice(&s.to_le_bytes());
        }
        body.extend(e);
    }
    let mut h = h;
    if r.chance(1, 40) {
        h.magic = r.word();
    }
    if r.chance(1, 40) {
        h.zero1[r.below(4)] = 1 + r.below(255) as u8;
    }
    if r.chance(1, 40) {
        h.zero2[r.below(4)] = 1 + r.below(255) as u8;
    }
    h.frames = if r.chance(1, 2) { nf as u16 } else { r.word() };
    let mut b = h.enc();
    b.extend(body);
    match r.below(14) {
        0 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let n = 1 + r.below(20);
            b.extend(r.bytes(n));
        }
        2 => {
            // a zero length or minimal frame at the end
            let x = r.pick(&[vec![4u8, 0, 0, 0], vec![16, 0, 0, 0, 0xfa, 0xf1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], vec![0; 4], vec![0; 16], vec![15, 0, 0, 0, 0xfa, 0xf1, 0, 0, 0, 0, 0, 0, 0, 0, 0]]);
            b.extend(x);
        }
        _ => {}
    }
    let mut ev = vec![ev_raw(&b, true)];
    if let Out::Ok(f) = call(|| parse_raw_file(&b)) {
        let c = Ctx::of(&b);
        let cels: Vec<Vec<Value>> = f.frames.iter().map(|f| f.cels().map(|x| c.cel(x)).collect()).collect();
        ev.push(json!({"e": "rcels", "cels": cels}));
    }
    ev
}

// ---- assembly --------------------------------------------------------------

fn ud_num(r: &mut Rng, n: &mut u32) -> Vec<u8> {
    *n += 1;
    let t = format!("u{}", n);
    match r.below(4) {
        0 => chunk_bytes(0x2020, &W::new().d(3).str(t.as_bytes()).d(r.dword()).done()),
        1 => chunk_bytes(0x2020, &W::new().d(2).d(*n).done()),
        2 if r.chance(1, 3) => match r.below(5) {
            0 => chunk_bytes(0x2020, &W::new().d(0).done()),
            1 => chunk_bytes(0x2020, &W::new().d(0xffff_fff8).done()),
            2 => chunk_bytes(0x2020, &W::new().d(2).d(0).done()),
            3 => chunk_bytes(0x2020, &W::new().d(1).str(b"").done()),
            _ => chunk_bytes(0x2020, &W::new().d(7).str(b"").d(0).d(8).d(0).done()),
        },
        _ => user_text(t.as_bytes()),
    }
}

/// a valid chunk of the type with every field random, a cel for the given layer
fn rich_chunk(r: &mut Rng, ty: u16, layer: usize) -> Option<Vec<u8>> {
    for _ in 0..4 {
        let mut p = payload(r, ty);
        if ty == 0x2005 {
            p[..2].copy_from_slice(&(layer as u16).to_le_bytes());
        }
        let c = chunk_bytes(ty, &p);
        if p.len() < 160 && call(|| parse_chunk(&c).map(|_| ())).st() == "ok" {
            return Some(c);
        }
    }
    None
}
/// a linked cel with all its other fields
fn rich_link(r: &mut Rng, layer: usize, frame: usize) -> Vec<u8> {
    let (x, y, op, z) = (r.word() as i16, r.word() as i16, r.byte(), r.range(-2, 2) as i16);
    let n = r.below(8).saturating_sub(5);
    chunk_bytes(0x2005, &cel_head(layer as u16, x, y, op, 1, z).w(frame as u16).raw(&r.bytes(n)).done())
}

pub fn asm(r: &mut Rng, id: u64) -> Vec<Value> {
    let depth = r.pick(&[32u16, 32, 16, 8]);
    let many = id % 50 == 7;
    // crowds: dozens of chunks of mostly one kind
    let crowd = id % 12 == 3;
    let rich = id % 3 == 1 && !many;
    let nf = if crowd { 1 + r.below(2) } else { 1 + r.below(4) };
    let most = r.pick(&[0usize, 2, 4, 4, 4, 8, 10, 14]);
    let mut h = Hdr::new(4, 4, depth);
    h.transparent = r.byte();
    let mut n = 0u32;
    let mut nl = 0usize;
    let mut frames = vec![];
    let total_layers = if many { 300 } else { r.below(5) };
    for f in 0..nf {
        let mut cs = vec![];
        let len = if crowd { 22 + r.below(50) } else { r.below(14) };
        if f == 0 {
            if depth == 8 && r.chance(7, 8) {
                cs.push(palette(1, 0, 0, &[[1, 2, 3, 4]]));
            }
            if many || crowd {
                let total_layers = if crowd { 1 + r.below(40) } else { total_layers };
                for i in 0..total_layers {
                    cs.push(layer(1, 0, 0, 0, 255, format!("{}", i).as_bytes(), None));
                    nl += 1;
                }
            }
        }
        let mut last = 0;
        for _ in 0..len {
            // in rich documents chunks carry anything, and are repeated as they are
            if rich && !cs.is_empty() && r.chance(1, 5) {
                let c: Vec<u8> = r.pick(&cs);
                nl += usize::from(c[4..6] == [0x04, 0x20]);
                cs.push(c);
                continue;
            }
            if rich && r.chance(1, 2) {
                let ty = r.pick(&[0x2004u16, 0x2005, 0x2005, 0x2005, 0x2018, 0x2018, 0x2020, 0x2020, 0x2020, 0x2022, 0x2019, 0x0004]);
                if ty != 0x2005 || last < nl {
                    if r.chance(1, 3) && nl > 0 {
                        last = r.below(nl);
                    }
                    if let Some(c) = rich_chunk(r, ty, last) {
                        nl += usize::from(ty == 0x2004);
                        cs.push(c);
                    }
                }
                continue;
            }
            // runs of user data after anything are the interesting part
            let k = if crowd && r.chance(3, 4) { most } else if r.chance(2, 5) { 1 } else { r.below(16) };
            n += 1;
            match k {
                0 | 1 => cs.push(ud_num(r, &mut n)),
                2 | 3 => {
                    if nl < 8 || crowd || r.chance(1, 2) {
                        let ty = r.pick(&[0u16, 0, 1, 2, 5]);
                        let ts = (ty == 2).then_some(n);
                        cs.push(layer(r.word(), ty, r.word(), r.below(20) as u16, r.byte(), format!("l{}", n).as_bytes(), ts));
                        nl += 1;
                    }
                }
                4..=7 => {
                    let top = nl.max(1);
                    let li = match r.below(30) {
                        0 => nl,
                        1 => nl + 1,
                        2 => 0xffff,
                        3..=12 => last,
                        _ => r.below(top),
                    };
                    if li < nl || (!crowd && r.chance(1, 6)) {
                        last = li;
                        let c = match r.below(4) {
                            0 => cel_link(li as u16, n as i16, -1, r.below(3) as u16),
                            1 => cel_zlib(li as u16, n as i16, 2, 1, 1, &[n as u8]),
                            2 => chunk_bytes(0x2005, &cel_head(li as u16, n as i16, 3, r.byte(), r.pick(&[3u16, 4]), r.word() as i16).w(1).w(1).w(32).d(1).d(2).d(3).d(4).z(10).b(n as u8).done()),
                            _ => cel_raw(li as u16, n as i16, 5, 1, 1, &[n as u8; 4]),
                        };
                        cs.push(c);
                    }
                }
                8 | 9 => {
                    let k = if crowd { r.below(40) } else { r.pick(&[0usize, 1, 2, 2, 3]) };
                    let t: Vec<_> = (0..k).map(|i| (0, i as u16, i as u8, n as u16, format!("t{}.{}", n, i).into_bytes())).collect();
                    cs.push(tags(&t));
                    if r.chance(2, 3) {
                        for _ in 0..r.below(k + 3) {
                            cs.push(ud_num(r, &mut n));
                        }
                    }
                }
                10 | 11 => cs.push(slice_simple(format!("s{}", n).as_bytes())),
                12 => cs.push(palette(1, n & 0xff, n & 0xff, &[[n as u8, 1, 2, 3]])),
                13 => cs.push(old_palette(r.pick(&[0x0004u16, 0x0011]), &[(0, vec![[1, 2, 3]])])),
                14 => {
                    let c = match r.below(6) {
                        0 => chunk_bytes(0x2006, &W::new().d(0).z(32).done()),
                        1 => chunk_bytes(0x2007, &W::new().w(1).w(0).d(0).z(8).done()),
                        2 => chunk_bytes(0x2008, &W::new().d(0).z(8).done()),
                        3 => chunk_bytes(0x2016, &W::new().z(16).str(b"m").done()),
                        4 => chunk_bytes(0x2017, &[1, 2]),
                        _ => chunk_bytes(0x2023, &W::new().d(n).d(0).d(0).w(1).w(1).s(0).z(14).str(b"ts").done()),
                    };
                    cs.push(c);
                }
                _ => {
                    let t = unknown_type(r);
                    cs.push(chunk_bytes(t, &[0; 3]));
                }
            }
        }
        frames.push(Frame::new(dur(r), cs));
    }
    while r.chance(1, 5) {
        frames.insert(r.below(frames.len() + 1), Frame::new(dur(r), vec![]));
    }
    // layers may also be declared after the cels that use them
    if !frames.is_empty() && r.chance(1, 3) {
        let k = r.below(frames.len());
        for _ in 0..r.below(3) {
            frames[k].chunks.push(layer(1, 0, 0, 0, 255, b"late", None));
        }
    }
    let b = doc(r, &h, &frames);
    vec![ev_raw(&b, false), ev_file(&b, false)]
}

/// user data of every kind on its way into the document
pub fn ud_file(r: &mut Rng, id: u64) -> Vec<Value> {
    let (h, mut frames) = good_doc(r);
    for f in frames.iter_mut() {
        let mut k = 0;
        while k < f.chunks.len() {
            let ty = u16::from_le_bytes([f.chunks[k][4], f.chunks[k][5]]);
            if ty != 0x2020 && r.chance(1, 3) {
                let n = 1 + r.below(3);
                let p = if r.chance(1, 6) { damaged_payload(r, 0x2020) } else { user_data(r, n) };
                if p.len() < 300 {
                    let at = (k + 1).min(f.chunks.len());
                    f.chunks.insert(at, chunk_bytes(0x2020, &p));
                    if let Some(c) = f.new_count.as_mut() {
                        *c += 1;
                    } else if let Some(c) = f.old_count.as_mut() {
                        *c += 1;
                    }
                }
            }
            k += 1;
        }
    }
    let b = doc(r, &h, &frames);
    cur(id, &b);
    vec![ev_raw(&b, true), ev_file(&b, true)]
}

// ---- palette ---------------------------------------------------------------

pub fn pal(r: &mut Rng, id: u64) -> Vec<Value> {
    let depth = if id % 8 == 3 { r.pick(&[16u16, 32, 24]) } else { 8 };
    let mut h = Hdr::new(1, 1, depth);
    h.transparent = if r.chance(1, 2) { r.byte() } else { r.below(8) as u8 };
    h.flags = r.dword();
    h.colors = r.word();
    let nf = 1 + r.below(3);
    let kinds: Vec<u16> = match r.below(9) {
        0 => vec![0x2019],
        1 => vec![0x0004],
        2 => vec![0x0011],
        3 => vec![0x2019, 0x0004],
        4 => vec![0x0004, 0x0011],
        5 => vec![0x2019, 0x0011],
        6 => vec![],
        _ => vec![0x2019, 0x0004, 0x0011],
    };
    let mut frames = vec![];
    for _ in 0..nf {
        let mut cs = vec![];
        for _ in 0..r.below(4) {
            if kinds.is_empty() {
                cs.push(chunk_bytes(0x2017, &[]));
                continue;
            }
            match r.pick(&kinds) {
                0x2019 => {
                    let full = r.chance(1, 12);
                    let a = if full { 0 } else if r.chance(1, 2) { r.below(10) } else { r.byte() as usize };
                    let n = match r.below(12) {
                        _ if full => 256,
                        0 => 1 + r.below(256 - a),
                        1 => 256 - a,
                        _ => 1 + r.below((256 - a).min(8)),
                    };
                    let e: Vec<[u8; 4]> = (0..n).map(|_| pal_color(r)).collect();
                    let size = if r.chance(1, 2) { (a + n) as u32 } else { r.below(300) as u32 };
                    if r.chance(1, 3) {
                        let mut w = W::new().d(size).d(a as u32).d((a + n - 1) as u32).z(8);
                        for c in &e {
                            let named = r.chance(1, 2);
                            w = w.w(r.word() & !1 | u16::from(named)).raw(c);
                            if named {
                                w = w.str(&utf8(r));
                            }
                        }
                        cs.push(chunk_bytes(0x2019, &w.done()));
                    } else {
                        cs.push(palette(size, a as u32, (a + n - 1) as u32, &e));
                    }
                }
                ty => {
                    // many packets of one color each, up to a full table and one beyond
                    let crowd = r.chance(1, 8);
                    let np = if crowd { r.pick(&[9usize, 64, 127, 128, 129, 200, 254, 255, 256, 256, 257]) } else { r.below(4) };
                    let mut p = vec![];
                    let mut pos = 0usize;
                    for _ in 0..np {
                        if crowd {
                            let skip = usize::from(pos + np < 250 && r.chance(1, 9));
                            pos += skip + 1;
                            p.push((skip as u8, vec![[old_comp(r, ty), old_comp(r, ty), old_comp(r, ty)]]));
                            continue;
                        }
                        let skip = match r.below(8) {
                            0 => r.byte() as usize,
                            1 => 255,
                            // aim at the end of the table
                            2 if pos < 250 => 250 - pos,
                            _ => r.below(6),
                        };
                        let left = 256usize.saturating_sub(pos + skip);
                        let n = match r.below(20) {
                            0 => 256,
                            1 | 2 if left > 0 && left < 12 => left,
                            3 if left < 12 => left + 1,
                            4 => 255,
                            _ => 1 + r.below(5),
                        };
                        pos += skip + n;
                        p.push((skip.min(255) as u8, (0..n).map(|_| if r.chance(1, 6) { r.pick(&[[0u8; 3], [63; 3], [63, 0, 63]]) } else { [old_comp(r, ty), old_comp(r, ty), old_comp(r, ty)] }).collect()));
                    }
                    cs.push(old_palette(ty, &p));
                }
            }
        }
        frames.push(Frame::new(dur(r), cs));
        while r.chance(1, 6) {
            frames.insert(r.below(frames.len() + 1), Frame::new(dur(r), vec![]));
        }
    }
    let b = doc(r, &h, &frames);
    // every other time from the bytes on
    vec![ev_raw(&b, id % 2 == 0), ev_file(&b, true)]
}
/// colors that might be taken for something else
fn pal_color(r: &mut Rng) -> [u8; 4] {
    match r.below(6) {
        0 => r.pick(&[[0u8; 4], [0, 0, 0, 255], [255; 4], [255, 0, 255, 255], [255, 255, 255, 0], [0, 0, 0, 1], [1, 0, 0, 0]]),
        _ => [r.byte(), r.byte(), r.byte(), r.pick(&[255u8, 255, 0, 7, 128])],
    }
}
fn old_comp(r: &mut Rng, ty: u16) -> u8 {
    if ty == 0x0004 || r.chance(1, 300) {
        r.byte()
    } else {
        r.below(64) as u8
    }
}

// ---- high-level view -------------------------------------------------------

/// a document of layers, cels and links; mostly loadable
pub fn view_doc(r: &mut Rng, id: u64) -> Vec<u8> {
    let depth = r.pick(&[8u16, 16, 32, 32, 24]);
    let big = id % 40 == 11;
    let long = id % 40 == 23;
    let nl = if big { 270 + r.below(10) } else { r.below(6) };
    let nf = if long { 258 + r.below(6) } else { 1 + r.below(5) };
    let mut h = Hdr::new(r.word(), r.word(), depth);
    h.transparent = r.byte();
    let types: Vec<u16> = (0..nl)
        .map(|_| if r.chance(2, 3) { 0 } else { r.pick(&[1u16, 1, 2, 2, 3, 0x101]) })
        .collect();
    let bad = r.chance(1, 6);
    let rich = r.chance(1, 3);
    // images, names and tags that are hard to tell apart
    let alike = r.chance(1, 3);
    let mut frames = vec![];
    // plan: which frames hold an image for which layer
    let has: Vec<Vec<u8>> = (0..nf)
        .map(|_| {
            (0..nl)
                .map(|_| {
                    let p = if big || long { r.chance(1, 12) } else { r.chance(3, 4) };
                    if p {
                        1 + r.below(3) as u8
                    } else {
                        0
                    }
                })
                .collect()
        })
        .collect();
    // otherwise fine documents in which a single link is wrong
    let links: Vec<(usize, usize)> = (0..nf).flat_map(|f| (0..nl).map(move |l| (f, l))).filter(|x| has[x.0][x.1] == 1).collect();
    let broken = if !bad && !links.is_empty() && r.chance(1, 4) { Some(r.pick(&links)) } else { None };
    for f in 0..nf {
        let mut cs = vec![];
        if f == 0 {
            if depth == 8 {
                cs.push(palette(1, 0, 0, &[[1, 2, 3, 4]]));
            }
            for (i, t) in types.iter().enumerate() {
                let name = if alike { r.pick(&[&b""[..], b"a", b"a"]).to_vec() } else if rich || r.chance(1, 5) { utf8(r) } else { format!("L{}", i).into_bytes() };
                cs.push(layer(r.word(), *t, r.word(), r.below(21) as u16, r.byte(), &name, (*t == 2).then_some(1)));
            }
            let nt = r.below(4);
            let t: Vec<_> = (0..nt)
                .map(|_| {
                    let (a, b) = (r.word(), r.word());
                    let name = if alike { b"a".to_vec() } else { utf8(r) };
                    let (a, b) = if alike { (0, r.below(2) as u16) } else { (a, b) };
                    (if r.chance(1, 4) { a } else { a.min(b) }, a.max(b), r.pick(&[0u8, 1, 2, 3, 4, 200]), r.pick(&[0u16, 1, 2, 0xffff, 0x100]), name)
                })
                .collect();
            cs.push(tags(&t));
            if alike {
                cs.push(tags(&t));
            }
        }
        let mut cels = vec![];
        for l in 0..nl {
            match has[f][l] {
                0 => {}
                1 if broken == Some((f, l)) => {
                    let links: Vec<usize> = (0..nf).filter(|g| has[*g][l] == 1 && *g != f).collect();
                    let holes: Vec<usize> = (0..nf).filter(|g| has[*g][l] == 0).collect();
                    let t = match r.below(4) {
                        0 | 1 if !links.is_empty() => r.pick(&links),
                        2 if !holes.is_empty() => r.pick(&holes),
                        3 => r.pick(&[nf, nf + 1, 0xffff, 0x100 + f]),
                        _ => f,
                    };
                    cels.push(rich_link(r, l, t));
                }
                1 if nf > 1 || bad => {
                    // a link to a frame with a stored image, mostly
                    let c: Vec<usize> = (0..nf).filter(|g| has[*g][l] > 1).collect();
                    let t = if bad && r.chance(1, 4) {
                        r.pick(&[nf, nf + 1, f, 0, 0xffff, 255, 256])
                    } else if !c.is_empty() {
                        r.pick(&c)
                    } else {
                        continue;
                    };
                    cels.push(rich_link(r, l, t));
                }
                _ => {
                    if bad && r.chance(1, 15) {
                        let ty = r.pick(&[3u16, 4, 0xffff]);
                        cels.push(chunk_bytes(0x2005, &cel_head(l as u16, 0, 0, 255, ty, 0).z(60).done()));
                    } else {
                        let n = r.below(6);
                        let (x, y, mut w, mut hh) = (r.word() as i16, r.word() as i16, r.word(), r.word());
                        let mut data = r.bytes(n);
                        if alike {
                            w = r.pick(&[0u16, 1, 2, 2]);
                            hh = r.pick(&[0u16, 1, 2, 2]);
                            data = r.pick(&[vec![], vec![7; 4], vec![1, 2, 3, 4]]);
                        }
                        let op = r.byte();
                        let z = r.range(-3, 3) as i16;
                        let ty = r.pick(&[0u16, 2]);
                        cels.push(chunk_bytes(0x2005, &cel_head(l as u16, x, y, op, ty, z).w(w).w(hh).raw(&data).done()));
                    }
                    // the same layer twice in a frame
                    if r.chance(1, 12) {
                        let w = r.word();
                        cels.push(cel_raw(l as u16, 1, 2, w, 3, &[5]));
                    }
                }
            }
        }
        // stored order of the cels is arbitrary
        if r.chance(1, 2) {
            for i in (1..cels.len()).rev() {
                let j = r.below(i + 1);
                cels.swap(i, j);
            }
        }
        cs.extend(cels);
        for _ in 0..r.below(6).saturating_sub(3) {
            let p = payload(r, 0x2022);
            let c = chunk_bytes(0x2022, &p);
            if p.len() < 200 && call(|| parse_chunk(&c).map(|_| ())).st() == "ok" {
                cs.push(c);
                if r.chance(1, 3) {
                    cs.push(user_text(b"of the slice"));
                }
            }
        }
        frames.push(Frame::new(dur(r), cs));
    }
    doc(r, &h, &frames)
}
pub fn view(r: &mut Rng, id: u64) -> Vec<Value> {
    let b = view_doc(r, id);
    let mut ev = vec![ev_file(&b, id % 3 == 0), ev_load(&b)];
    if id % 3 == 0 {
        // from the bytes on
        ev.insert(0, ev_raw(&b, true));
    }
    ev
}
