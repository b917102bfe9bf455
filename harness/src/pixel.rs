//! Sessions about pixels: image decoding, rendering, layer selection, blending.
use crate::enc::*;
use crate::gen::*;
use crate::proj::{bytes, pixels, Ctx};
use crate::rng::Rng;
use crate::util::{call, call_k, cur, Out};
use aseprite_loader::loader::{decompress, AsepriteFile, LayerSelection, LoadImageError};
use serde_json::{json, Value};

pub fn kind(e: &LoadImageError) -> String {
    format!("{:?}", e)
}

// ---- image decoding --------------------------------------------------------

fn plain(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![r.byte(); n],
        1 => {
            let k = 1 + r.below(7);
            let p = r.bytes(k);
            (0..n).map(|i| p[i % k]).collect()
        }
        2 => (0..n).map(|i| (i * 3) as u8).collect(),
        3 => (0..n).map(|_| r.below(4) as u8 * 60).collect(),
        _ => (0..n).map(|_| r.byte()).collect(),
    }
}
/// zlib stream with flushes and level changes in the middle
pub fn zlib_flushed(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(r.below(10) as u32));
    let k = r.below(d.len() + 1);
    e.write_all(&d[..k]).unwrap();
    e.flush().unwrap();
    e.write_all(&d[k..]).unwrap();
    e.finish().unwrap()
}
fn stored(d: &[u8], final_block: bool) -> Vec<u8> {
    let mut v = vec![u8::from(final_block)];
    v.extend((d.len() as u16).to_le_bytes());
    v.extend((!(d.len() as u16)).to_le_bytes());
    v.extend(d);
    v
}
fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + u32::from(*x)) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
/// (compressed?, stored data) of an image whose pixel data should be `p`
fn pack(r: &mut Rng, p: &[u8]) -> (bool, Vec<u8>) {
    let other = |r: &mut Rng| -> Vec<u8> {
        // too short or too long
        let mut q = p.to_vec();
        if r.chance(1, 2) && !q.is_empty() {
            let n = if r.chance(1, 2) { q.len() - 1 } else { r.below(q.len()) };
            q.truncate(n);
        } else {
            let n = if r.chance(1, 2) { 1 } else { 1 + r.below(9) };
            q.extend(r.bytes(n));
        }
        q
    };
    match r.below(16) {
        0..=3 => (false, p.to_vec()),
        4 => (false, other(r)),
        5..=7 => (true, zlib(p, r.below(10) as u32)),
        8 => (true, zlib_flushed(r, p)),
        9 => {
            let q = other(r);
            (true, zlib(&q, r.below(10) as u32))
        }
        10 => {
            let mut z = zlib(p, r.below(10) as u32);
            let n = r.below(z.len());
            z.truncate(n);
            (true, z)
        }
        11 => {
            let mut z = zlib(p, r.below(10) as u32);
            let i = r.below(z.len());
            z[i] ^= 1 << r.below(8);
            (true, z)
        }
        12 => {
            let n = r.below(12);
            (true, r.bytes(n))
        }
        13 => {
            let mut z = zlib(p, 6);
            let n = 1 + r.below(5);
            z.extend(r.bytes(n));
            (true, z)
        }
        14 => {
            // several stored blocks, one possibly empty
            let k = r.below(p.len() + 1);
            let mut z = vec![0x78, 0x01];
            z.extend(stored(&p[..k], false));
            z.extend(stored(&p[k..], true));
            z.extend(adler(p).to_be_bytes());
            (true, z)
        }
        _ => {
            // checksum damaged
            let mut z = zlib(p, 6);
            let n = z.len();
            z[n - 1 - r.below(4)] ^= 1 << r.below(8);
            (true, z)
        }
    }
}

pub fn prefill(n: usize, k: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + k) as u8).collect()
}

fn ev_ctx(f: &AsepriteFile<'_>) -> Value {
    let c = Ctx::of(&[]);
    let h = c.header(&f.file.header);
    let pal: Vec<Value> = f
        .file
        .palette
        .iter()
        .map(|p| Value::Array(p.colors.iter().map(|c| json!([c.red, c.green, c.blue, c.alpha])).collect()))
        .collect();
    json!({"e": "ctx", "dk": h["dk"], "pal": pal})
}

fn ev_img(f: &AsepriteFile<'_>, i: usize, len: usize, fill: usize) -> Value {
    let img = &f.images[i];
    let mut buf = prefill(len, fill);
    let o = call_k(|| f.load_image(i, &mut buf), kind);
    json!({"e": "img", "w": img.width, "h": img.height, "comp": u8::from(img.compressed),
        "data": bytes(img.data), "blen": len, "fill": fill, "st": o.st(), "kind": o.kind(), "out": bytes(&buf)})
}

pub fn image(r: &mut Rng, id: u64) -> Vec<Value> {
    let depth = if id % 60 == 59 { 24 } else { r.pick(&[8u16, 16, 32]) };
    let mut h = Hdr::new(1, 1, depth);
    h.transparent = r.below(4) as u8;
    let n = 1 + r.below(2);
    let mut frames = vec![];
    for i in 0..n {
        let mut cs = vec![];
        if i == 0 {
            cs.push(layer(1, 0, 0, 0, 255, b"l", None));
            if depth == 8 {
                let k = r.pick(&[4usize, 16, 200, 256]);
                let e: Vec<[u8; 4]> = (0..k).map(|_| [r.byte(), r.byte(), r.byte(), r.byte()]).collect();
                cs.push(palette(k as u32, 0, k as u32 - 1, &e));
            }
        }
        let (w, hh) = match r.below(12) {
            0 => (r.below(3), r.below(3)),
            1 => (1 + r.below(30), 1 + r.below(12)),
            2 => (1 + r.below(40), 1),
            3 => (1, 1 + r.below(40)),
            _ => (1 + r.below(6), 1 + r.below(6)),
        };
        let p = plain(r, w * hh * psize(depth));
        let (comp, d) = pack(r, &p);
        cs.push(if comp { cel_zlib(0, 0, 0, w as u16, hh as u16, &d) } else { cel_raw(0, 0, 0, w as u16, hh as u16, &d) });
        frames.push(Frame::new(dur(r), cs));
    }
    noise(r, &mut h, &mut frames);
    let b = doc(r, &h, &frames);
    cur(id, &b);
    let f = match call(|| AsepriteFile::load(&b)) {
        Out::Ok(f) => f,
        o => return vec![json!({"e": "noload", "st": o.st()})],
    };
    let mut ev = vec![ev_ctx(&f)];
    for i in 0..f.images.len() {
        let need = usize::from(f.images[i].width) * usize::from(f.images[i].height) * 4;
        let fill = r.below(256);
        ev.push(ev_img(&f, i, need, fill));
        let l = match r.below(6) {
            0 => need.saturating_sub(1),
            1 => r.below(need + 1),
            2 => need + 4,
            _ => need + r.below(9),
        };
        ev.push(ev_img(&f, i, l, fill / 2));
    }
    ev
}

/// sizes at which something might change
const DIMS: [(u16, u16); 22] = [
    (256, 256), (300, 220), (65535, 1), (1, 65535), (257, 255), (1000, 66), (16, 16), (64, 64), (128, 128), (512, 512), (1024, 1024), (255, 255),
    (256, 1), (1, 256), (257, 1), (32768, 1), (1, 32768), (129, 127), (640, 480), (2100, 2100), (60000, 20), (20, 40000),
];
/// large images, observed at some of their pixels
pub fn big_image(r: &mut Rng, id: u64) -> Vec<Value> {
    let (w, h) = DIMS[(id as usize / 6) % DIMS.len()];
    let depth = [8u16, 16, 32][id as usize % 3];
    let comp = (id / 3) % 2 == 1;
    let n = usize::from(w) * usize::from(h);
    let ps = psize(depth);
    let mut src = vec![0u8; n * ps];
    let style = r.below(4);
    for (i, p) in src.chunks_mut(ps).enumerate() {
        for (k, b) in p.iter_mut().enumerate() {
            *b = ((i * 31 + i / 251 + k * 77) & 0xff) as u8;
        }
        // all kinds of alpha
        if ps > 1 {
            p[ps - 1] = match style {
                0 => 255,
                1 => (i % 256) as u8,
                2 => [0, 255, 1, 254, 128][i % 5],
                _ => 0,
            };
        }
        if style == 3 && i % 3 == 0 {
            p.fill(0);
        }
    }
    let mut cs = vec![layer(1, 0, 0, 0, 255, b"l", None)];
    let e: Vec<[u8; 4]> = (0..256).map(|i| [i as u8, r.byte(), r.byte(), 255 - i as u8]).collect();
    let pal = palette(256, 0, 255, &e);
    if depth == 8 {
        cs.push(pal.clone());
    }
    let level = r.pick(&[0u32, 1, 6]);
    cs.push(if comp { cel_zlib(0, 0, 0, w, h, &zlib(&src, level)) } else { cel_raw(0, 0, 0, w, h, &src) });
    let b = file(&Hdr::new(1, 1, depth), &[Frame::new(1, cs)]);
    cur(id, &[]);
    let f = match call(|| AsepriteFile::load(&b)) {
        Out::Ok(f) => f,
        o => return vec![json!({"e": "noload", "st": o.st()})],
    };
    let mut ev = vec![ev_ctx(&f)];
    let extra = r.pick(&[0usize, 1, 2, 4, 1000]);
    let mut buf = prefill(n * 4 + extra, 5);
    let o = call_k(|| f.load_image(0, &mut buf), kind);
    let mut at = vec![0, n - 1];
    for p in [255usize, 256, 257, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537] {
        at.push(p.min(n - 1));
    }
    // runs of pixels at the row ends and anywhere
    for _ in 0..40 {
        let p = r.below(n);
        at.extend(p..(p + 6).min(n));
        let y = r.below(usize::from(h)) * usize::from(w);
        at.extend(y.saturating_sub(2)..(y + 2).min(n));
    }
    at.sort();
    at.dedup();
    let px: Vec<Value> = at.iter().map(|p| json!([p, bytes(&src[p * ps..(p + 1) * ps]), bytes(&buf[p * 4..p * 4 + 4])])).collect();
    // the source is given instead of the stored stream: decompressing that
    // much inside the model checker is out of reach
    ev.push(json!({"e": "simg", "w": w, "h": h, "fill": 5, "st": o.st(), "kind": o.kind(), "px": px, "tail": bytes(&buf[n * 4..])}));
    let mut small = prefill(n * 4 - 1, 9);
    let o = call_k(|| f.load_image(0, &mut small), kind);
    ev.push(json!({"e": "bsmall", "st": o.st(), "kind": o.kind(), "same": u8::from(small == prefill(n * 4 - 1, 9))}));
    // the same with data of another length, or a stream that is cut
    let less = r.pick(&[1usize, ps, ps * usize::from(w), 65_536, n / 2 * ps, n * ps]).min(n * ps);
    let more = r.pick(&[1usize, ps, ps * usize::from(w), 65_536]);
    for (have, cut) in [(n * ps - less, false), (n * ps + more, false), (n * ps, true)] {
        let mut d = src.clone();
        d.resize(have, 7);
        let mut z = if comp { zlib(&d, level) } else { d };
        if cut {
            let k = r.pick(&[1usize, 3, 4, 5, 8, z.len() / 2, z.len() - 1]).clamp(1, z.len());
            z.truncate(z.len() - k);
        }
        let c = if comp { cel_zlib(0, 0, 0, w, h, &z) } else { cel_raw(0, 0, 0, w, h, &z) };
        let b = file(&Hdr::new(1, 1, depth), &[Frame::new(1, vec![pal.clone(), layer(1, 0, 0, 0, 255, b"l", None), c])]);
        cur(id, &[]);
        let Out::Ok(f) = call(|| AsepriteFile::load(&b)) else {
            continue;
        };
        let mut buf = vec![0; n * 4];
        let o = call_k(|| f.load_image(0, &mut buf), kind);
        // have: bytes of the image that are stored, all of them or cut
        ev.push(json!({"e": "bdata", "w": w, "h": h, "have": have, "cut": u8::from(cut), "st": o.st(), "kind": o.kind()}));
    }
    ev
}

/// bit writer for hand-made deflate streams
struct Bw(Vec<u8>, u32);
impl Bw {
    fn put(&mut self, v: u32, n: u32) {
        for i in 0..n {
            if self.1 % 8 == 0 {
                self.0.push(0);
            }
            let l = self.0.len() - 1;
            self.0[l] |= ((v >> i & 1) as u8) << (self.1 % 8);
            self.1 += 1;
        }
    }
    fn code(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.put(v >> i & 1, 1);
        }
    }
    fn lit(&mut self, s: u32) {
        match s {
            0..=143 => self.code(0x30 + s, 8),
            144..=255 => self.code(0x190 + s - 144, 9),
            256..=279 => self.code(s - 256, 7),
            _ => self.code(0xc0 + s - 280, 8),
        }
    }
}
/// a stream of fixed Huffman symbols, with valid and invalid references
fn fixed_stream(r: &mut Rng) -> (Vec<u8>, usize) {
    let mut w = Bw(vec![0x78, 0x9c], 16);
    let mut out: Vec<u8> = vec![];
    w.put(1, 1);
    w.put(1, 2);
    const LB: [usize; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
    const LE: [u32; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
    const DB: [usize; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
    const DE: [u32; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
    for _ in 0..1 + r.below(12) {
        if out.is_empty() || r.chance(1, 2) {
            let b = r.byte();
            w.lit(b.into());
            out.push(b);
        } else {
            let l = r.below(29);
            let le = r.below(1 << LE[l]);
            let d = if r.chance(1, 20) {
                r.below(32)
            } else {
                (0..30).rev().find(|d| DB[*d] <= out.len() && (*d == 0 || r.chance(1, 2))).unwrap_or(0)
            };
            w.lit(257 + l as u32);
            w.put(le as u32, LE[l]);
            w.code(d as u32, 5);
            if d >= 30 {
                break;
            }
            let de = r.below(1 << DE[d]);
            w.put(de as u32, DE[d]);
            let dist = DB[d] + de;
            if dist > out.len() {
                break;
            }
            for _ in 0..LB[l] + le {
                out.push(out[out.len() - dist]);
            }
        }
    }
    w.lit(256);
    let mut v = w.0;
    v.extend(adler(&out).to_be_bytes());
    (v, out.len())
}

fn ev_inflate(z: &[u8], n: usize, fill: usize) -> Value {
    cur(0, z);
    let mut buf = prefill(n, fill);
    let o = call_k(|| decompress(z, &mut buf), kind);
    json!({"e": "inflate", "data": z, "blen": n, "fill": fill, "st": o.st(), "kind": o.kind(), "out": bytes(&buf)})
}
pub fn inflate(r: &mut Rng, _id: u64) -> Vec<Value> {
    let (z, n) = match r.below(8) {
        0 | 1 => fixed_stream(r),
        2 => {
            // arbitrary bits behind a valid header
            let k = 1 + r.below(20);
            let mut z = vec![0x78, 0x9c];
            z.extend(r.bytes(k));
            z[2] = z[2] & 0xf8 | r.below(8) as u8;
            (z, r.below(10))
        }
        3 => {
            let k = r.below(9);
            let d = r.bytes(k);
            let mut z = zlib(&d, 6);
            z[r.below(2)] = r.byte();
            (z, d.len())
        }
        _ => {
            let k = r.pick(&[0usize, 1, 2, 10, 40, 150, 400]);
            let d = plain(r, k);
            let z = if r.chance(1, 3) { zlib_flushed(r, &d) } else { zlib(&d, r.below(10) as u32) };
            let z = if r.chance(1, 4) {
                let mut z = z;
                let i = r.below(z.len());
                z[i] ^= 1 << r.below(8);
                z
            } else {
                z
            };
            (z, d.len())
        }
    };
    let fill = r.below(256);
    let mut ev = vec![ev_inflate(&z, n, fill)];
    if r.chance(1, 2) {
        let m = match r.below(3) {
            0 => n.saturating_sub(1),
            1 => n + 1,
            _ => r.below(2 * n + 2),
        };
        ev.push(ev_inflate(&z, m, fill));
    }
    ev
}

// ---- rendering -------------------------------------------------------------

pub fn ev_imgs(f: &AsepriteFile<'_>) -> Value {
    let l: Vec<Value> = (0..f.images.len())
        .map(|i| {
            let img = &f.images[i];
            let n = usize::from(img.width) * usize::from(img.height) * 4;
            let mut buf = vec![0u8; n];
            let o = call(|| f.load_image(i, &mut buf));
            let px = if o.st() == "ok" { pixels(&buf) } else { json!([]) };
            json!({"st": o.st(), "px": px})
        })
        .collect();
    json!({"e": "imgs", "imgs": l})
}
pub fn sel_json(s: &LayerSelection) -> Value {
    match s {
        LayerSelection::Visible => json!({"k": "Visible", "m": []}),
        LayerSelection::All => json!({"k": "All", "m": []}),
        LayerSelection::Mask(m) => json!({"k": "Mask", "m": m.iter().map(|b| u8::from(*b)).collect::<Vec<_>>()}),
    }
}
/// renders into a buffer of `len` bytes filled from `bg` and records what changed
pub fn ev_render(f: &AsepriteFile<'_>, frame: usize, sel: &LayerSelection, len: usize, bg: &[[u8; 4]]) -> Value {
    let mut before: Vec<u8> = Vec::with_capacity(len + 4);
    let mut i = 0;
    while before.len() < len {
        before.extend(bg[if bg.len() == 1 { 0 } else { i % bg.len() }]);
        i += 1;
    }
    before.truncate(len);
    let mut buf = before.clone();
    let o = call_k(|| f.render_frame(frame, &mut buf, sel), kind);
    let mut diff = vec![];
    for (i, (a, b)) in before.chunks(4).zip(buf.chunks(4)).enumerate() {
        if a != b {
            let mut v = vec![json!(i)];
            v.extend(b.iter().map(|x| json!(x)));
            while v.len() < 5 {
                v.push(json!(-1)); // change in the incomplete pixel at the end
            }
            diff.push(Value::Array(v));
        }
    }
    json!({"e": "render", "f": frame, "sel": sel_json(sel), "len": len,
        "bg": bg, "st": o.st(), "kind": o.kind(), "diff": diff})
}

pub struct Ly {
    pub flags: u16,
    pub ty: u16,
    pub blend: u16,
    pub op: u8,
    pub name: Vec<u8>,
}
fn color_px(r: &mut Rng) -> [u8; 4] {
    [r.byte(), r.byte(), r.byte(), r.pick(&[255u8, 255, 255, 255, 0, 1, 128, 200, 254])]
}
fn pos(r: &mut Rng, canvas: u16, size: u16) -> i16 {
    let (c, s) = (i64::from(canvas), i64::from(size));
    let v = match r.below(14) {
        0 => -s,
        1 => -s + 1,
        2 => c - 1,
        3 => c,
        4 => c - s,
        5 => r.pick(&[-32768i64, -32767, 32767, 32766, -256, -255, 255, 256, -128, 128]),
        _ => r.range(-s - 1, c + 1),
    };
    v.clamp(-32768, 32767) as i16
}

pub fn render_doc(r: &mut Rng, modes: bool) -> Vec<u8> {
    let (h, frames) = render_parts(r, modes);
    doc(r, &h, &frames)
}
fn render_parts(r: &mut Rng, modes: bool) -> (Hdr, Vec<Frame>) {
    let (cw, ch) = (r.pick(&[1u16, 2, 3, 4, 5, 7]), r.pick(&[1u16, 2, 3, 4, 6]));
    let depth = r.pick(&[32u16, 32, 32, 16, 8]);
    let mut h = Hdr::new(cw, ch, depth);
    let nl = 1 + r.below(5);
    let odd = r.chance(1, 5);
    // quarters of the layers that are nothing special
    let plain = r.pick(&[0usize, 0, 1, 3]);
    let layers: Vec<Ly> = (0..nl)
        .map(|i| Ly {
            flags: (r.next() as u16 & !1) | u16::from(r.chance(3, 4)),
            ty: if r.chance(3, 4) { 0 } else { r.pick(&[1u16, 1, 1, 2, 9]) },
            blend: if !modes || r.chance(plain, 4) {
                0
            } else if r.chance(1, 40) {
                r.pick(&[19u16, 0xffff])
            } else {
                r.below(19) as u16
            },
            op: if modes && !r.chance(plain, 4) { r.byte() } else { r.pick(&[255u8, 255, 255, 128, 0]) },
            name: if odd { r.pick(STRINGS).as_bytes().to_vec() } else { format!("L{}", i % 3).into_bytes() },
        })
        .collect();
    let nf = 1 + r.below(3);
    let mut frames = vec![];
    for f in 0..nf {
        let mut cs = vec![];
        if f == 0 {
            if depth == 8 {
                let e: Vec<[u8; 4]> = (0..16).map(|_| color_px(r)).collect();
                cs.push(palette(16, 0, 15, &e));
            }
            for l in &layers {
                cs.push(layer(l.flags, l.ty, r.below(3) as u16, l.blend, l.op, &l.name, (l.ty == 2).then_some(0)));
            }
        }
        let mut cels = vec![];
        for i in 0..nl {
            if r.chance(1, 5) {
                continue;
            }
            // often exactly or at least the canvas
            let span = r.below(8);
            let (w, hh) = match span {
                0 | 1 => (cw, ch),
                2 => (cw, r.pick(&[1u16, ch + 1])),
                3 => (r.pick(&[1u16, cw + 1]), ch),
                4 if r.chance(1, 12) => (0, r.pick(&[0, ch, 3])),
                5 if r.chance(1, 12) => (r.pick(&[0, cw, 3]), 0),
                _ => (r.pick(&[1u16, 1, 2, 3, 4, 6]), r.pick(&[1u16, 1, 2, 3, 5])),
            };
            let n = usize::from(w) * usize::from(hh);
            let mut data: Vec<u8> = match depth {
                32 if n > 0 && r.chance(1, 3) => {
                    // all alike but for a few
                    let a = r.pick(&[255u8, 255, 255, 0, 128, 254, 254, 253, 250, 1]);
                    let mut d: Vec<u8> = (0..n).flat_map(|_| [r.byte(), r.byte(), r.byte(), a]).collect();
                    for _ in 0..r.below(4) / 2 {
                        d[r.below(n) * 4 + 3] = r.pick(&[0u8, 255, 254, 1, 100]);
                    }
                    d
                }
                32 => (0..n).flat_map(|_| color_px(r)).collect(),
                16 if r.chance(1, 2) => (0..n).flat_map(|_| [r.byte(), r.pick(&[255u8, 255, 255, 0, 90])]).collect(),
                16 => (0..n * 2).map(|_| r.byte()).collect(),
                _ => (0..n).map(|_| r.below(17) as u8).collect(),
            };
            let (x, y) = if span < 4 && r.chance(3, 4) { (0, 0) } else { (pos(r, cw, w), pos(r, ch, hh)) };
            if r.chance(1, 30) {
                data.push(1); // undecodable
            }
            if f > 0 && r.chance(1, 5) {
                cels.push(cel_link(i as u16, x, y, 0));
            } else if r.chance(1, 3) {
                cels.push(cel_zlib(i as u16, x, y, w, hh, &zlib(&data, 1)));
            } else {
                // cel opacity and z-index are not used for rendering
                cels.push(chunk(0x2005, &cel_head(i as u16, x, y, r.pick(&[255u8, 255, 255, 100]), 0, r.pick(&[0i16, 0, 0, 1, -2])).w(w).w(hh).raw(&data).done()));
            }
        }
        for i in (1..cels.len()).rev() {
            let j = r.below(i + 1);
            cels.swap(i, j);
        }
        // links need an image in frame 0
        cs.extend(cels);
        frames.push(Frame::new(dur(r), cs));
    }
    if r.chance(1, 20) {
        // a canvas without pixels
        if r.chance(2, 3) {
            h.width = 0;
        }
        if h.width > 0 || r.chance(1, 3) {
            h.height = 0;
        }
    }
    noise(r, &mut h, &mut frames);
    (h, frames)
}
fn random_sel(r: &mut Rng, n: usize) -> LayerSelection {
    match r.below(4) {
        0 => LayerSelection::Visible,
        1 => LayerSelection::All,
        _ => {
            let k = match r.below(4) {
                0 => r.below(n + 1),
                1 => n + 1 + r.below(3),
                _ => n,
            };
            let p = 1 + r.below(3);
            LayerSelection::Mask((0..k).map(|_| r.chance(p, 4)).collect())
        }
    }
}
fn bg(r: &mut Rng) -> Vec<[u8; 4]> {
    match r.below(4) {
        0 => vec![[0; 4]],
        1 => vec![color_px(r)],
        _ => (0..64).map(|_| color_px(r)).collect(),
    }
}
fn buf_len(r: &mut Rng, need: usize) -> usize {
    match r.below(8) {
        0 => need.saturating_sub(1 + r.below(4)),
        1 => r.below(need + 1),
        2 => need + 4 * (1 + r.below(4)),
        3 => need + 1 + r.below(9),
        4 if r.chance(1, 3) => 2 * need + r.below(300),
        _ => need,
    }
}
fn sel_events(f: &AsepriteFile<'_>, r: &mut Rng, ev: &mut Vec<Value>) -> Vec<LayerSelection> {
    let pool: Vec<String> = f
        .layers()
        .iter()
        .map(|l| l.name.clone())
        .chain(["".into(), "L".into(), "L0".into(), "L00".into(), "l1".into(), "nope".into()])
        .collect();
    let k = r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 5, 8]);
    let names: Vec<String> = (0..k)
        .map(|_| {
            let n = r.pick(&pool);
            // almost the name
            match r.below(12) {
                0 => n.to_lowercase(),
                1 => n.to_uppercase(),
                2 => n.trim().to_string(),
                3 => format!("{} ", n),
                4 => n.chars().rev().collect(),
                5 => n.chars().skip(1).collect(),
                6 => r.pick(STRINGS).to_string(),
                _ => n,
            }
        })
        .collect();
    let refs: Vec<&str> = names.iter().map(String::as_str).collect();
    let o = call(|| Ok::<_, ()>(f.select_layers_by_name(&refs)));
    let nj: Vec<Value> = names.iter().map(|n| bytes(n.as_bytes())).collect();
    ev.push(json!({"e": "selname", "names": nj, "st": o.st(), "sel": sel_opt(&o)}));
    let mut out: Vec<LayerSelection> = o.ok().into_iter().collect();
    let (pk, t) = (r.pick(&["vis", "hid", "op", "first", "none", "group"]), r.byte());
    let o = call(|| {
        Ok::<_, ()>(f.select_layers(|l| match pk {
            "vis" => l.visible,
            "hid" => !l.visible,
            "op" => l.opacity >= t,
            "first" => l.name == "L0",
            "none" => false,
            _ => format!("{:?}", l.layer_type) == "Group",
        }))
    });
    ev.push(json!({"e": "selpred", "p": pk, "t": t, "st": o.st(), "sel": sel_opt(&o)}));
    out.extend(o.ok());
    out
}
fn sel_opt(o: &Out<LayerSelection>) -> Value {
    match o {
        Out::Ok(s) => json!([sel_json(s)]),
        _ => json!([]),
    }
}

fn session_of(b: &[u8], r: &mut Rng, id: u64, renders: usize) -> Vec<Value> {
    cur(id, b);
    let f = match call(|| AsepriteFile::load(b)) {
        Out::Ok(f) => f,
        Out::Err(_) => return vec![], // a link without image, say: not the subject here
        Out::Panic => return vec![json!({"e": "noload", "st": "panic"})],
    };
    let c = Ctx::of(b);
    let mut ev = vec![json!({"e": "view", "r": c.view(&f)}), ev_imgs(&f)];
    let sels = sel_events(&f, r, &mut ev);
    let (w, h) = f.size();
    let need = usize::from(w) * usize::from(h) * 4;
    for k in 0..renders {
        let fr = r.below(f.frames().len());
        let sel = if k < sels.len() { sels[k].clone() } else { random_sel(r, f.layers().len()) };
        let len = buf_len(r, need);
        let b = bg(r);
        ev.push(ev_render(&f, fr, &sel, len, &b));
    }
    ev
}

/// C11: mostly opaque, mode normal
pub fn render(r: &mut Rng, id: u64) -> Vec<Value> {
    let b = render_doc(r, false);
    session_of(&b, r, id, 4)
}
/// what a document with everything in it looks like, judged from its bytes
fn pipe_doc(r: &mut Rng, fam: &str) -> Vec<u8> {
    let (mut h, mut frames) = match r.below(3) {
        0 => good_doc(r),
        _ => render_parts(r, true),
    };
    if h.depth == 8 {
        h.transparent = r.pick(&[0u8, 0, 1, 3, 15, 255]);
        let rgb = |r: &mut Rng, n: usize, top: usize| (0..n).map(|_| [r.below(top) as u8, r.below(top) as u8, r.below(top) as u8]).collect::<Vec<_>>();
        let extra = match r.below(4) {
            0 => {
                let k = r.below(6);
                vec![old_palette(0x0004, &[(k as u8, rgb(r, 9, 256)), (1, rgb(r, 2, 256))])]
            }
            1 => {
                let k = r.below(3);
                vec![old_palette(0x0011, &[(k as u8, rgb(r, 12, 64))])]
            }
            2 => {
                let k = r.below(10) as u32;
                vec![palette(256, k, k + 1, &[[r.byte(), r.byte(), r.byte(), r.byte()], [1, r.byte(), 3, 200]])]
            }
            _ => vec![],
        };
        // only the extra ones
        if !extra.is_empty() && r.chance(1, 2) {
            for f in frames.iter_mut() {
                let had = f.chunks.len();
                f.chunks.retain(|c| ![0x2019, 0x0004, 0x0011].contains(&u16::from_le_bytes([c[4], c[5]])));
                let gone = had - f.chunks.len();
                f.new_count = f.new_count.map(|c| c - (gone as u32).min(c));
                f.old_count = f.old_count.map(|c| if c == 0xffff { c } else { c - (gone as u16).min(c) });
            }
        }
        for c in extra {
            let k = r.below(frames.len());
            let at = r.pick(&[0, frames[k].chunks.len()]);
            insert_chunk(&mut frames[k], at, c);
        }
    }
    for f in frames.iter_mut() {
        for k in 0..f.chunks.len() {
            let c = &mut f.chunks[k];
            let ty = u16::from_le_bytes([c[4], c[5]]);
            if ty == 0x2004 && (fam == "pipehsl" || fam == "pipenormal") {
                let m = if fam == "pipehsl" { 12 + r.below(4) as u16 } else { 0 };
                c[16..18].copy_from_slice(&m.to_le_bytes());
            }
            if ty == 0x2004 && r.chance(1, 5) {
                // level, type and visibility
                c[10] = r.below(4) as u8;
                c[6] = c[6] & !1 | r.below(2) as u8;
            }
        }
        // what may follow any element
        for k in (0..=f.chunks.len()).rev() {
            if r.chance(1, 8) {
                let c = match r.below(5) {
                    0 => chunk(0x2020, &good_user_data(r)),
                    1 => slice_simple(b"s"),
                    2 => tags(&[(0, 0, 0, 0, b"t".to_vec())]),
                    3 => chunk(0x2006, &W::new().d(1).d(r.dword()).d(r.dword()).d(r.dword()).d(r.dword()).z(16).done()),
                    _ => user_text(b"x"),
                };
                insert_chunk(f, k, c);
            }
        }
        if r.chance(1, 30) && !f.chunks.is_empty() {
            let k = r.below(f.chunks.len());
            let c = f.chunks[k].clone();
            insert_chunk(f, k, c);
        }
    }
    if r.chance(1, 2) {
        let n = 1 + r.below(3);
        crate::misc::perturb(r, &mut h, &mut frames, n);
    }
    doc(r, &h, &frames)
}
fn insert_chunk(f: &mut Frame, at: usize, c: Vec<u8>) {
    f.chunks.insert(at, c);
    if let Some(c) = f.new_count.as_mut() {
        *c += 1;
    } else if let Some(c) = f.old_count.as_mut() {
        *c += 1;
    }
}
/// from the bytes of a file to its images and frames
pub fn pipe(r: &mut Rng, id: u64, fam: &str) -> Vec<Value> {
    let b = pipe_doc(r, fam);
    cur(id, &b);
    let o = call(|| AsepriteFile::load(&b));
    let mut ev = vec![json!({"e": "doc", "in": b, "st": o.st()})];
    let Out::Ok(f) = o else { return ev };
    if fam == "pipeimg" {
        for i in 0..f.images.len() {
            let need = usize::from(f.images[i].width) * usize::from(f.images[i].height) * 4;
            let (len, fill) = (buf_len(r, need), r.below(256));
            let mut buf = prefill(len, fill);
            let o = call_k(|| f.load_image(i, &mut buf), kind);
            ev.push(json!({"e": "dimg", "i": i, "blen": len, "fill": fill, "st": o.st(), "kind": o.kind(), "out": bytes(&buf)}));
        }
        return ev;
    }
    let sels = sel_events(&f, r, &mut ev);
    let (w, h) = f.size();
    let need = usize::from(w) * usize::from(h) * 4;
    for k in 0..4 {
        let fr = r.below(f.frames().len());
        let sel = match k {
            0 => LayerSelection::Visible,
            1 if sels.len() > 1 => sels[r.below(2)].clone(),
            _ => random_sel(r, f.layers().len()),
        };
        let len = buf_len(r, need);
        let b = bg(r);
        ev.push(ev_render(&f, fr, &sel, len, &b));
    }
    ev
}

/// C12: layer stacks with modes and opacities
pub fn select(r: &mut Rng, id: u64) -> Vec<Value> {
    let b = if id % 25 == 3 {
        // more than 255 layers
        let nl = 258 + r.below(6);
        let mut cs = vec![];
        for i in 0..nl {
            cs.push(layer(r.below(2) as u16, r.pick(&[0u16, 0, 0, 1, 2]), 0, 0, 255, format!("L{}", i % 5).as_bytes(), Some(0)));
        }
        let mut cels = vec![];
        for i in 0..nl {
            if r.chance(1, 20) || i >= 254 {
                cels.push(cel_raw(i as u16, r.range(-1, 2) as i16, 0, 2, 1, &[r.byte(), r.byte(), r.byte(), 255, r.byte(), r.byte(), r.byte(), 120]));
            }
        }
        cs.extend(cels);
        file(&Hdr::new(3, 1, 32), &[Frame::new(1, cs)])
    } else {
        render_doc(r, true)
    };
    session_of(&b, r, id, 4)
}

/// extreme canvas and cel sizes, extreme positions
pub fn big_render(r: &mut Rng, id: u64) -> Vec<Value> {
    const C: [(u16, u16); 8] = [(65535, 1), (1, 65535), (40000, 1), (32768, 1), (1, 32769), (3, 3), (300, 300), (2, 40000)];
    // canvases and cels of several rows and columns, beyond 255 in one direction
    let area = id % 3 == 2;
    let (cw, ch) = C[id as usize % C.len()];
    let (cw, ch) = if area { r.pick(&[(256u16, 3u16), (257, 4), (3, 256), (4, 257), (300, 3), (2, 300), (520, 3), (3, 520), (260, 5), (5, 260)]) } else { (cw, ch) };
    let wide = ch < 10;
    let mut cs = vec![layer(1, 0, 0, 0, 255, b"a", None), layer(1, 0, 0, 0, 255, b"b", None)];
    for l in 0..2u16 {
        let long = [3u16, 65535, 1, 40000, 2, 300][(id as usize / C.len() + usize::from(l) * 2) % 6];
        let (w, h) = if cw == ch { (long.min(300), if l == 0 { 2 } else { 1 }) } else if wide { (long, 1) } else { (1, long) };
        let (w, h) = if area {
            let long = r.pick(&[255u16, 256, 257, 258, 260, 300, 511, 512, 513, 600]);
            let short = r.pick(&[1u16, 2, 2, 3, 4]);
            if (cw > ch) == r.chance(3, 4) { (long, short) } else { (short, long) }
        } else {
            (w, h)
        };
        let p = |r: &mut Rng, c: u16, s: u16| -> i16 {
            let (c, s) = (i64::from(c), i64::from(s));
            r.pick(&[0i64, c - 1, c - s, 32767, 32766, -32768, -32767, 1, -1, c / 2, -s + 1, -s + 2, 1 - s / 2]).clamp(-32768, 32767) as i16
        };
        let (x, y) = (p(r, cw, w), p(r, ch, h));
        let (x, y) = if wide && cw != ch { (x, 0) } else if cw != ch { (0, y) } else { (x, y) };
        let (x, y) = if area { (r.pick(&[0i16, 0, 0, 1, -1, -255, -256, -257, 3]), r.pick(&[0i16, 0, 0, 1, -1, -255, -256, -257, 2])) } else { (x, y) };
        let n = usize::from(w) * usize::from(h);
        let data: Vec<u8> = (0..n).flat_map(|i| [(i & 0xff) as u8, (i >> 8) as u8, l as u8, 255]).collect();
        cs.push(cel_zlib(l, x, y, w, h, &zlib(&data, 1)));
    }
    let b = file(&Hdr::new(cw, ch, 32), &[Frame::new(1, cs)]);
    cur(id, &[]);
    let f = match call(|| AsepriteFile::load(&b)) {
        Out::Ok(f) => f,
        o => return vec![json!({"e": "noload", "st": o.st()})],
    };
    let c = Ctx::of(&b);
    let mut v = c.view(&f);
    v["images"] = json!([]);
    let need = usize::from(cw) * usize::from(ch) * 4;
    vec![
        json!({"e": "view", "r": v}),
        ev_imgs(&f),
        ev_render(&f, 0, &LayerSelection::All, need + 5, &[[9, 9, 9, 9]]),
    ]
}

// ---- blending --------------------------------------------------------------

pub fn ev_blend(mode: u16, op: u8, back: &[[u8; 4]], front: &[[u8; 4]]) -> Value {
    let n = back.len();
    let data: Vec<u8> = front.concat();
    let b = file(
        &Hdr::new(n as u16, 1, 32),
        &[Frame::new(1, vec![layer(1, 0, 0, mode, op, b"l", None), cel_raw(0, 0, 0, n as u16, 1, &data)])],
    );
    cur(0, &b);
    let mut buf: Vec<u8> = back.concat();
    let o = call(|| {
        let f = AsepriteFile::load(&b).map_err(|_| ())?;
        f.render_frame(0, &mut buf, &LayerSelection::All).map_err(|_| ())
    });
    json!({"e": "blend", "mode": mode, "op": op, "back": back, "front": front, "st": o.st(), "out": pixels(&buf)})
}
pub const SEPARABLE: [u16; 15] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18];
pub const GRID_SESSIONS: u64 = 22;
/// all pairs of channel values, three per pixel
pub fn grid(_r: &mut Rng, id: u64) -> Vec<Value> {
    let mode = SEPARABLE[(id / GRID_SESSIONS) as usize % 15];
    let first = (id % GRID_SESSIONS) * 1000;
    let (mut back, mut front) = (vec![], vec![]);
    for k in first..(first + 1000).min(21846) {
        let pair = |j: u64| {
            let p = (3 * k + j) % 65536;
            ((p >> 8) as u8, p as u8)
        };
        let (a, b, c) = (pair(0), pair(1), pair(2));
        back.push([a.0, b.0, c.0, 255]);
        front.push([a.1, b.1, c.1, 255]);
    }
    vec![ev_blend(mode, 255, &back, &front)]
}
fn alpha(r: &mut Rng) -> u8 {
    match r.below(5) {
        0 => 255,
        1 => r.pick(&[0u8, 0, 1, 2, 254, 127, 128]),
        2 => r.byte(),
        _ => r.next() as u8,
    }
}
pub fn blend(r: &mut Rng, id: u64, hsl: bool) -> Vec<Value> {
    let mode = if hsl { 12 + (id % 4) as u16 } else { SEPARABLE[id as usize % 15] };
    let op = match r.below(3) {
        0 => 255,
        1 => r.pick(&[0u8, 1, 2, 127, 128, 254]),
        _ => r.next() as u8,
    };
    let n = 48;
    let rgb = |r: &mut Rng| -> [u8; 3] {
        match r.below(6) {
            0 => {
                let v = r.byte();
                [v, v, v]
            }
            1 => {
                // two equal channels
                let (a, b) = (r.byte(), r.byte());
                r.pick(&[[a, a, b], [a, b, a], [b, a, a]])
            }
            2 => [r.pick(&[0u8, 255]), r.pick(&[0u8, 255]), r.pick(&[0u8, 255])],
            3 => [r.byte(), r.byte(), r.byte()],
            _ => [r.next() as u8, r.next() as u8, r.next() as u8],
        }
    };
    let plain = id % 3 == 0; // opaque on opaque: the mode itself
    let px = |r: &mut Rng| {
        let c = rgb(r);
        [c[0], c[1], c[2], if plain { 255 } else { alpha(r) }]
    };
    let back: Vec<[u8; 4]> = (0..n).map(|_| px(r)).collect();
    let front: Vec<[u8; 4]> = (0..n).map(|_| px(r)).collect();
    let op = if plain && id % 2 == 0 { 255 } else { op };
    vec![ev_blend(mode, op, &back, &front)]
}

