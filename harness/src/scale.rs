//! Large documents, given as runs of equal parts (spec/Scale.tla) and
//! observed at samples of their elements.
#![allow(deprecated)]
use crate::enc::*;
use crate::proj::Ctx;
use crate::rng::Rng;
use crate::util::{call, cur, Out};
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::raw_file::parse_raw_file;
use aseprite_loader::loader::AsepriteFile;
use serde_json::{json, Value};

/// a group of chunks, repeated; instance i has v0 + i at `at` of chunk c
#[derive(Clone)]
struct Run {
    n: usize,
    g: Vec<Vec<u8>>,
    c: usize,
    at: usize,
    wd: usize,
    v0: usize,
}
/// equal frames
#[derive(Clone)]
struct Frames {
    n: usize,
    dur: usize,
    ds: usize,
    old: usize,
    new: usize,
    ch: Vec<Run>,
}
fn fix(n: usize, g: Vec<Vec<u8>>) -> Run {
    Run { n, g, c: 0, at: 0, wd: 0, v0: 0 }
}
fn step(n: usize, g: Vec<Vec<u8>>, c: usize, at: usize, wd: usize, v0: usize) -> Run {
    Run { n, g, c, at, wd, v0 }
}
impl Run {
    fn inst(&self, i: usize, out: &mut Vec<u8>) {
        for (k, c) in self.g.iter().enumerate() {
            let p = out.len() + self.at;
            out.extend_from_slice(c);
            if k + 1 == self.c {
                let v = self.v0 + i;
                out[p] = v as u8;
                if self.wd == 2 {
                    out[p + 1] = (v >> 8) as u8;
                }
            }
        }
    }
    fn len(&self) -> usize {
        self.g.iter().map(Vec::len).sum()
    }
    fn ty(&self, k: usize) -> u16 {
        u16::from_le_bytes([self.g[k][4], self.g[k][5]])
    }
    fn is_cel(&self) -> bool {
        self.ty(0) == 0x2005
    }
    fn is_layer(&self) -> bool {
        self.ty(0) == 0x2004
    }
    fn li(&self, i: usize) -> usize {
        let v = usize::from(u16::from_le_bytes([self.g[0][6], self.g[0][7]]));
        if self.c == 1 && self.at == 6 { self.v0 + i } else { v }
    }
    fn json(&self) -> Value {
        json!({"n": self.n, "g": self.g, "c": self.c, "at": self.at, "wd": self.wd, "v0": self.v0})
    }
}
impl Frames {
    fn new(n: usize, dur: usize, ds: usize, ch: Vec<Run>) -> Self {
        let mut f = Frames { n, dur, ds, old: 0, new: 0, ch };
        let p = f.present();
        if p < 65536 {
            f.old = p;
        } else {
            f.old = 65535;
            f.new = p;
        }
        f
    }
    fn present(&self) -> usize {
        self.ch.iter().map(|x| x.n * x.g.len()).sum()
    }
    fn body(&self) -> Vec<u8> {
        let mut b = vec![];
        for x in &self.ch {
            for i in 0..x.n {
                x.inst(i, &mut b);
            }
        }
        b
    }
    /// start of the instance i of chunk run y, from the start of the frame
    fn start(&self, y: usize, i: usize) -> usize {
        16 + self.ch[..y].iter().map(|x| x.n * x.len()).sum::<usize>() + i * self.ch[y].len()
    }
    /// the last cel of the layer: run and instance
    fn slot(&self, c: usize) -> Option<(usize, usize)> {
        self.ch.iter().enumerate().rev().find_map(|(y, x)| {
            if !x.is_cel() {
                return None;
            }
            let i = if x.li(1) != x.li(0) { c.checked_sub(x.li(0))? } else if x.li(0) == c { x.n.checked_sub(1)? } else { return None };
            (i < x.n).then_some((y, i))
        })
    }
}
struct Doc {
    d: Vec<Frames>,
    b: Vec<u8>,
}
impl Doc {
    fn new(h: &Hdr, d: Vec<Frames>) -> Self {
        let mut b = h.enc();
        for f in &d {
            let body = f.body();
            for j in 0..f.n {
                b.extend((body.len() as u32 + 16).to_le_bytes());
                b.extend(0xF1FAu16.to_le_bytes());
                b.extend((f.old as u16).to_le_bytes());
                b.extend(((f.dur + j * f.ds) as u16).to_le_bytes());
                b.extend([0, 0]);
                b.extend((f.new as u32).to_le_bytes());
                b.extend_from_slice(&body);
            }
        }
        Doc { d, b }
    }
    fn frames(&self) -> usize {
        self.d.iter().map(|f| f.n).sum()
    }
    /// run of frame k and where the frame starts
    fn frame(&self, mut k: usize) -> (&Frames, usize) {
        let mut p = 128;
        for f in &self.d {
            let size = 16 + f.ch.iter().map(|x| x.n * x.len()).sum::<usize>();
            if k < f.n {
                return (f, p + k * size);
            }
            k -= f.n;
            p += f.n * size;
        }
        panic!()
    }
    /// positions relative to the group
    fn ctx(&self, k: usize, y: usize, i: usize) -> Ctx {
        let (f, p) = self.frame(k);
        Ctx { base: self.b.as_ptr() as usize + p + f.start(y, i), len: f.ch[y].len(), content: false }
    }
    fn json(&self) -> Value {
        let fs: Vec<Value> = self
            .d
            .iter()
            .map(|f| json!({"n": f.n, "dur": f.dur, "ds": f.ds, "old": f.old, "new": f.new, "ch": f.ch.iter().map(Run::json).collect::<Vec<_>>()}))
            .collect();
        json!({"e": "bdoc", "d": fs})
    }
}

/// some of 0..n: the ends, the powers of two, anything
fn some(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    if n <= k {
        return (0..n).collect();
    }
    let mut v = vec![0, n - 1];
    for p in [127usize, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537] {
        if p < n {
            v.push(p);
        }
    }
    while v.len() < k {
        v.push(r.below(n));
    }
    v.sort();
    v.dedup();
    v
}

fn big(r: &mut Rng) -> usize {
    r.pick(&[65535usize, 65536, 65537, 65600, 70001])
}
fn mid(r: &mut Rng) -> usize {
    r.pick(&[0usize, 1, 2, 127, 128, 255, 256, 257, 300, 511, 700])
}
fn lay(ty: u16, name: &[u8]) -> Vec<u8> {
    layer(3, ty, 1, 2, 200, name, (ty == 2).then_some(9))
}
fn ud() -> Vec<u8> {
    chunk(0x2020, &W::new().d(2).d(0x0403_0201).done())
}
fn img(r: &mut Rng, li: u16) -> Vec<u8> {
    let d = r.bytes(5);
    cel_raw(li, 7, -8, r.word(), r.word(), &d)
}
fn imgz(r: &mut Rng, li: u16) -> Vec<u8> {
    let d = r.bytes(6);
    cel_zlib(li, 7, -8, r.word(), r.word(), &d)
}
fn tag2(names: bool) -> Vec<u8> {
    tags(&[(1, 2, 0, 3, if names { b"t".to_vec() } else { vec![] }), (4, 5, 1, 0, vec![])])
}

/// frames with many chunks
fn many_chunks(r: &mut Rng, v: usize) -> Vec<Frames> {
    let n = big(r);
    let unk = match r.below(3) {
        0 => vec![chunk(0x2017, &[])],
        1 => vec![chunk(0x7777, &[1, 2, 3])],
        _ => vec![slice_simple(b"s")],
    };
    let tail = step(1 + r.below(3), vec![slice_simple(b"end"), ud()], 2, 10, 1, 1);
    let before = if r.chance(1, 2) { vec![fix(3, vec![chunk(0x2017, &[])])] } else { vec![] };
    let mut ch = before;
    ch.push(fix(n, unk));
    ch.push(tail);
    let mut f = Frames::new(1 + r.below(2), 5, 1, ch);
    let p = f.present();
    match v % 13 {
        0 => f.new = p + 1,
        1 => f.new = p - 1,
        k @ 2..=6 => f.new = [65535usize, 65536, 65537, 256, 1][k - 2].min(p),
        k @ 7..=11 => {
            f.new = 0;
            f.old = [65535usize, 65534, 1, 255, 256][k - 7];
        }
        _ => {}
    }
    vec![f, Frames::new(2, 9, 0, vec![fix(1, vec![chunk(0x2017, &[])])])]
}
/// frames of many bytes
fn many_bytes(r: &mut Rng) -> Vec<Frames> {
    let size = r.pick(&[65529usize, 65530, 65531, 70000, 131_072]);
    let n = r.pick(&[1usize, 1, 2, 260]);
    let ty = r.pick(&[0x7777u16, 0x2006, 0x2017]);
    let junk = chunk(ty, &vec![0x41; size]);
    let one = if r.chance(1, 4) {
        // as one chunk
        vec![0u8; 1]
    } else {
        vec![]
    };
    let ch = vec![fix(n, vec![junk]), step(2, vec![slice_simple(b"end"), ud()], 2, 10, 1, 1), fix(one.len(), vec![chunk(0x2017, &one)])];
    vec![Frames::new(1, 5, 1, ch), Frames::new(2, 9, 3, vec![fix(1, vec![chunk(0x7001, &[])])])]
}
/// many frames, with links into them
fn many_frames(r: &mut Rng) -> Vec<Frames> {
    let n = r.pick(&[255usize, 256, 257, 65534, 65535, 65536, 66000]);
    let two = fix(1, vec![lay(r.pick(&[0u16, 1, 2]), b"l0")]);
    let first = Frames::new(1, 100, 0, vec![two, fix(1, vec![lay(0, b"l1")]), fix(1, vec![img(r, 0)])]);
    let both = vec![step(1, vec![imgz(r, 0)], 0, 0, 0, 0), fix(1, vec![img(r, 1)])];
    let a = Frames::new(n, 65000, 7, if r.chance(1, 2) { both } else { vec![fix(1, vec![img(r, 1)])] });
    let t = r.pick(&[1usize, 2, 254, 255, 256, 257, 65534, 65535]).min(n);
    let links = Frames::new(1 + r.below(300), 3, 1, vec![fix(1, vec![cel_link(1, -5, 6, t as u16)])]);
    let last = Frames::new(2, 3, 1, vec![fix(1, vec![img(r, 1), ud()]), fix(1, vec![cel_link(0, 1, 2, 0)])]);
    vec![first, a, links, last]
}
/// many layers, of several kinds
fn many_layers(r: &mut Rng, n: usize) -> Vec<Frames> {
    let m = mid(r);
    let c = 18; // opacity
    let mut ls = vec![
        step(m, vec![lay(r.pick(&[0u16, 1, 2, 2]), b"first")], 1, c, 1, 0),
        step(n, vec![lay(0, b"x"), ud()], 2, 10, 1, 7),
        step(r.below(3), vec![lay(2, b"tm")], 1, 10, 2, 65535),
        step(1 + r.below(300), vec![lay(1, b"g")], 1, 10, 2, 250),
    ];
    let total: usize = ls.iter().map(|x| x.n).sum();
    let top = total.min(65536);
    // cels for three ranges of layers
    let a = r.below(top / 3 + 1);
    let b = r.below(top / 3 + 1);
    let link = r.chance(1, 2) && b < 3000;
    let mut f0 = ls.split_off(0);
    f0.push(step(a, vec![img(r, 0)], 1, 6, 2, 0));
    f0.push(step(b, vec![imgz(r, 0), ud()], 1, 6, 2, a));
    f0.push(fix(1, vec![img(r, (top - 1) as u16)]));
    let first = Frames::new(1, 100, 0, f0);
    let mut v = vec![first];
    if n < 1000 {
        let mut ch = vec![];
        if link {
            ch.push(step(b, vec![cel_link(0, 3, -3, 0)], 1, 6, 2, a));
        } else {
            ch.push(step(b, vec![img(r, 0)], 1, 6, 2, a));
        }
        if r.chance(1, 2) {
            ch.insert(0, fix(1, vec![cel_link((top - 1) as u16, 3, -3, 0)]));
        }
        v.push(Frames::new(r.pick(&[1usize, 2, 256, 300]), 65000, 100, ch));
    } else {
        v.push(Frames::new(1, 1, 1, vec![fix(1, vec![img(r, 65535.min(total - 1) as u16)])]));
    }
    if r.chance(1, 8) {
        // one layer too far
        let f = v.last_mut().unwrap();
        let ch = f.ch.clone();
        *f = Frames::new(f.n, f.dur, f.ds, [ch, vec![fix(1, vec![img(r, total.min(65535) as u16)])]].concat());
    }
    v
}
/// many tags and slices, with user data
fn many_elements(r: &mut Rng) -> Vec<Frames> {
    let mut ch = vec![fix(1, vec![lay(0, b"l")])];
    let (a, b) = (r.pick(&[255usize, 300, 32768, 33000]), mid(r));
    let s = r.pick(&[256usize, 300, 65536, 66000]);
    let t = match r.below(3) {
        0 => vec![tag2(true), ud(), ud()],
        1 => vec![tag2(false), ud()],
        _ => vec![tag2(false)],
    };
    let k = t.len();
    ch.push(if k > 1 { step(a, t, k, 10, 2, 65530) } else { step(a, t, 1, 31, 2, 250) });
    ch.push(step(s, vec![slice_simple(b"sl"), ud()], 2, 10, 2, 65530));
    ch.push(step(b, vec![tag2(true), ud()], 2, 11, 1, 0));
    vec![Frames::new(1, 1, 0, ch), Frames::new(1 + r.below(2), 1, 0, vec![step(2, vec![slice_simple(b"later")], 0, 0, 0, 0)])]
}

fn build(r: &mut Rng, id: u64, v: usize) -> (Doc, bool) {
    let h = Hdr::new(3, 4, r.pick(&[16u16, 32]));
    let (d, view) = match id % 8 {
        0 | 1 => (many_chunks(r, v), false),
        2 => (many_bytes(r), false),
        3 => (many_frames(r), true),
        4 => {
            let n = mid(r);
            (many_layers(r, n), true)
        }
        5 => {
            let n = r.pick(&[300usize, 600]);
            (many_layers(r, n), true)
        }
        6 => {
            let n = r.pick(&[300usize, 300, 65300, 65536, 66000]);
            (many_layers(r, n), true)
        }
        _ => (many_elements(r), true),
    };
    (Doc::new(&h, d), view)
}

/// the bytes of some document
pub fn bytes(r: &mut Rng, id: u64) -> Vec<u8> {
    let v = r.below(13);
    build(r, id, v).0.b
}

pub fn scale(r: &mut Rng, id: u64, what: &str) -> Vec<Value> {
    // counts up over the sessions with many chunks
    let v = id as usize / 8 * 3 + [0, 1, 0, 0, 0, 2, 2, 0][id as usize % 8];
    let id = match what {
        // framing / documents / views
        "scaleraw" => [0, 1, 2, 3, 7, 0, 1, 4][id as usize % 8],
        "scaledoc" => [7, 6, 4, 3, 7, 5, 0, 4][id as usize % 8],
        _ => [3, 4, 5, 6, 3, 4, 5, 7][id as usize % 8],
    };
    let (doc, view) = build(r, id, v);
    cur(id, &[]);
    let whole = doc.d.iter().all(|f| f.present() == if f.new != 0 { f.new } else { f.old });
    let mut ev = vec![doc.json()];
    match what {
        "scaleraw" => ev.push(ev_raw(r, &doc)),
        "scaledoc" if whole => ev.push(ev_doc(r, &doc)),
        "scaleview" if whole && view => ev.push(ev_view(r, &doc)),
        _ => return vec![],
    }
    ev
}

fn ev_raw(r: &mut Rng, doc: &Doc) -> Value {
    let b = &doc.b;
    let o = call(|| parse_raw_file(b));
    let st = o.st();
    let mut v = json!({"e": "braw", "st": st, "nf": 0, "fr": [], "ch": []});
    if let Out::Ok(f) = o {
        v["nf"] = json!(f.frames.len());
        let (mut fr, mut ch) = (vec![], vec![]);
        for k in some(r, f.frames.len().min(doc.frames()), 40) {
            let x = &f.frames[k];
            fr.push(json!([k, x.duration, x.chunks.len()]));
            for j in some(r, x.chunks.len().min(doc.frame(k).0.present()), 24) {
                let mut q = j;
                for (y, z) in doc.frame(k).0.ch.iter().enumerate() {
                    if q < z.n * z.g.len() {
                        ch.push(json!([k, j, doc.ctx(k, y, q / z.g.len()).chunk(&x.chunks[j])]));
                        break;
                    }
                    q -= z.n * z.g.len();
                }
            }
        }
        v["fr"] = json!(fr);
        v["ch"] = json!(ch);
    }
    v
}

/// which chunk run and instance, and in which frame, holds the j-th group
/// whose first chunk has this type, when every group contributes m elements
fn place(doc: &Doc, ty: u16, m: usize, j: usize) -> Option<(usize, usize, usize)> {
    let mut q = j / m;
    let mut k = 0;
    for f in &doc.d {
        let per: usize = f.ch.iter().filter(|x| x.ty(0) == ty).map(|x| x.n).sum();
        if q < per * f.n {
            let kk = k + q / per;
            q %= per;
            for (y, x) in f.ch.iter().enumerate().filter(|(_, x)| x.ty(0) == ty) {
                if q < x.n {
                    return Some((kk, y, q));
                }
                q -= x.n;
            }
        }
        q -= per * f.n;
        k += f.n;
    }
    None
}

fn ev_doc(r: &mut Rng, doc: &Doc) -> Value {
    let b = &doc.b;
    let o = call(|| parse_file(b));
    let st = o.st();
    let mut v = json!({"e": "bfile", "st": st, "nf": 0, "nl": 0, "nt": 0, "ns": 0, "l": [], "t": [], "s": [], "c": []});
    if let Out::Ok(f) = o {
        v["nf"] = json!(f.frames.len());
        v["nl"] = json!(f.layers.len());
        v["nt"] = json!(f.tags.len());
        v["ns"] = json!(f.slices.len());
        let at = |ty, m, j| place(doc, ty, m, j).map(|(k, y, i)| doc.ctx(k, y, i));
        let mut l = vec![];
        for j in some(r, f.layers.len(), 40) {
            if let Some(c) = at(0x2004, 1, j) {
                l.push(json!([j, c.layer(&f.layers[j])]));
            }
        }
        v["l"] = json!(l);
        let mut l = vec![];
        for j in some(r, f.tags.len(), 40) {
            if let Some(c) = at(0x2018, 2, j) {
                l.push(json!([j, c.tag(&f.tags[j])]));
            }
        }
        v["t"] = json!(l);
        let mut l = vec![];
        for j in some(r, f.slices.len(), 40) {
            if let Some(c) = at(0x2022, 1, j) {
                l.push(json!([j, c.slice(&f.slices[j])]));
            }
        }
        v["s"] = json!(l);
        let mut l = vec![];
        for k in some(r, f.frames.len().min(doc.frames()), 30) {
            for c in some(r, f.frames[k].cels.len(), 20) {
                let cel = &f.frames[k].cels[c];
                let x = match (cel, doc.frame(k).0.slot(c)) {
                    (None, _) => json!([]),
                    (Some(x), Some((y, i))) => json!([doc.ctx(k, y, i).cel(x)]),
                    (Some(x), None) => json!([Ctx::of(b).cel(x)]),
                };
                l.push(json!([k, f.frames[k].duration, c, x]));
            }
        }
        v["c"] = json!(l);
    }
    v
}

fn ev_view(r: &mut Rng, doc: &Doc) -> Value {
    let b = &doc.b;
    let o = call(|| AsepriteFile::load(b));
    let st = o.st();
    let mut v = json!({"e": "bload", "st": st, "nf": 0, "nl": 0, "nt": 0, "nimg": 0, "l": [], "fr": [], "c": [], "im": []});
    let Out::Ok(f) = o else { return v };
    v["nf"] = json!(f.frames().len());
    v["nl"] = json!(f.layers().len());
    v["nt"] = json!(f.tags().len());
    v["nimg"] = json!(f.image_count());
    let c0 = Ctx::of(b);
    // layers and their kinds, as stored
    let mut kinds = vec![];
    for x in doc.d[0].ch.iter().filter(|x| x.is_layer()) {
        let exposed = x.g[0][8] < 2 && x.g[0][9] == 0;
        kinds.extend(std::iter::repeat_n(exposed, x.n));
    }
    let mut l = vec![];
    for e in some(r, f.layers().len(), 40) {
        l.push(json!([e, c0.view_layer(&f.layers()[e])]));
    }
    v["l"] = json!(l);
    let (mut fr, mut cs, mut im) = (vec![], vec![], vec![]);
    let mut images = 0;
    let mut pick = some(r, f.frames().len().min(doc.frames()), 25).into_iter().peekable();
    let mut k = 0;
    for run in &doc.d {
        let slots: Vec<Option<(usize, usize)>> = (0..kinds.len()).map(|c| run.slot(c)).collect();
        let is_img = |c: usize| slots[c].is_some_and(|(y, _)| run.ch[y].g[0][13] != 1);
        let per = (0..kinds.len()).filter(|c| is_img(*c)).count();
        for _ in 0..run.n {
            if pick.peek() == Some(&k) {
                pick.next();
                let x = &f.frames()[k];
                fr.push(json!([k, x.duration, x.origin.0, x.origin.1, x.cels.len()]));
                let present: Vec<usize> = (0..kinds.len()).filter(|c| slots[*c].is_some() && kinds[*c]).collect();
                for q in some(r, x.cels.len().min(present.len()), 20) {
                    cs.push(json!([k, present[q], q, c0.view_cel(&x.cels[q])]));
                }
                let imgs: Vec<usize> = (0..kinds.len()).filter(|c| is_img(*c)).collect();
                for q in some(r, imgs.len(), 12) {
                    if let Some(i) = f.images.get(images + q) {
                        let (y, inst) = slots[imgs[q]].unwrap();
                        im.push(json!([k, imgs[q], images + q, doc.ctx(k, y, inst).view_image(i)]));
                    }
                }
            }
            images += per;
            k += 1;
        }
    }
    v["fr"] = json!(fr);
    v["c"] = json!(cs);
    v["im"] = json!(im);
    v
}
