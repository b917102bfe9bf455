//! Random (seeded) generators of chunks and files.
use crate::enc::*;
use crate::rng::Rng;

/// strings that must be reported as they are
pub const STRINGS: &[&str] = &[
    "", "\0", "a\0", "\0a", " ", " a", "a ", "\ta\n", "a\r\n", "\u{feff}", "\u{feff}a", "a\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}",
    "\u{10ffff}", "\u{1f600}", "e\u{301}", "\u{e9}", "\u{fb01}", "I\u{307}", "\u{130}", "\u{df}", "SS", "A", "a", "\u{200b}", "\u{202e}x", "\u{a0}",
    "\u{2028}", "/", "a/b", "..", "%20", "\\", "\"", "&amp;", "null", "Layer 1", "layer 1", "LAYER 1", "\u{1}", "\u{7f}", "\u{80}", "\u{85}",
];
pub fn utf8(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 8) {
        return r.pick(STRINGS).as_bytes().to_vec();
    }
    if r.chance(1, 10) {
        // as many bytes before a wide character as any limit might allow
        let k = r.below(70);
        let mut s = vec![b'x'; k];
        while s.len() < 72 && r.chance(7, 8) {
            s.extend(r.pick(&["\u{e4}", "\u{20ac}", "\u{1f600}"]).as_bytes());
        }
        return s;
    }
    let n = match r.below(12) {
        0 => 0,
        1 => 250 + r.below(30),
        2 => 30 + r.below(40),
        _ => 1 + r.below(6),
    };
    let mut s = String::new();
    let ascii = r.chance(1, 2) || n > 100;
    for _ in 0..n {
        let c = if ascii {
            0x20 + r.below(0x5f) as u32
        } else {
            match r.below(8) {
                0 => r.range(0, 0x7f) as u32,
                1 => r.range(0x80, 0x7ff) as u32,
                2 => r.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]),
                3 => r.range(0x800, 0xd7ff) as u32,
                4 => r.range(0xe000, 0xffff) as u32,
                5 => r.range(0x10000, 0x10ffff) as u32,
                _ => 0x61 + r.below(26) as u32,
            }
        };
        s.push(char::from_u32(c).unwrap());
    }
    s.into_bytes()
}

pub fn maybe_bad_utf8(r: &mut Rng, p: usize) -> Vec<u8> {
    let mut s = utf8(r);
    if r.chance(1, p) {
        let bad: &[&[u8]] = &[
            &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc2], &[0xc2, 0x20], &[0xe0, 0x80, 0x80],
            &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xe1, 0x80], &[0xf0, 0x80, 0x80, 0x80],
            &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xff], &[0xfe],
            &[0xf1, 0x80, 0x80], &[0xe1, 0x80, 0xc0],
        ];
        let b = r.pick(bad);
        let keep = if r.chance(1, 2) { s.len() } else { 0 };
        let tail = s.split_off(keep);
        s.extend_from_slice(b);
        s.extend(tail);
    }
    s
}

/// (type, bytes) of a random property value
/// zeros, infinities, NaNs with payload, subnormal and extreme numbers
pub fn special_floats(t: u16) -> Vec<Vec<u8>> {
    if t == 11 {
        [0u32, 1 << 31, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fc0_0001, 0xffff_ffff, 0x7fff_1234, 1, 0x8000_0001, 0x007f_ffff, 0x0080_0000,
            0x7f7f_ffff, 0xff7f_ffff, 0x3f80_0000, 0xbf80_0000, 0x3fc0_0000, 0x4b80_0001, 0x3dcc_cccd]
            .iter().map(|b| b.to_le_bytes().to_vec()).collect()
    } else {
        [0u64, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, (0x7ff8 << 48) + 1, u64::MAX, (0x7fff << 48) + 0x1234, 1, (1 << 63) + 1,
            (1 << 52) - 1, 1 << 52, 0x7fef_ffff_ffff_ffff, 0xffef_ffff_ffff_ffff, 0x3ff0 << 48, 0xbff0 << 48, 0x3fb9_9999_9999_999a,
            0x4340_0000_0000_0001, 0x3ff0_0000_0000_0001, 0x47f0_0000_0000_0001]
            .iter().map(|b: &u64| b.to_le_bytes().to_vec()).collect()
    }
}
pub fn value(r: &mut Rng, depth: usize) -> (u16, Vec<u8>) {
    let t = if depth == 0 {
        r.pick(&[1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19])
    } else {
        r.range(1, 19) as u16
    };
    (t, value_of(r, t, depth))
}
pub fn value_of(r: &mut Rng, t: u16, depth: usize) -> Vec<u8> {
    match t {
        1 => vec![r.pick(&[0u8, 1, 1, 2, 128, 255])],
        2 | 3 => vec![r.byte()],
        4 | 5 => r.word().to_le_bytes().to_vec(),
        6 | 7 => r.dword().to_le_bytes().to_vec(),
        8 | 9 => r.qword().to_le_bytes().to_vec(),
        10 => r.dword().to_le_bytes().to_vec(),
        11 | 12 if r.chance(1, 3) => {
            let l = special_floats(t);
            r.pick(&l)
        }
        // no signalling NaNs: moving those through registers may quiet them on some targets
        11 => {
            let mut b = r.next() as u32;
            if b & 0x7f80_0000 == 0x7f80_0000 {
                b |= 0x0040_0000;
            }
            b.to_le_bytes().to_vec()
        }
        12 => {
            let mut b = if r.chance(1, 3) { (r.below(1000) as f64 / 8.0).to_bits() } else { r.next() };
            if b & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000 {
                b |= 0x0008_0000_0000_0000;
            }
            b.to_le_bytes().to_vec()
        }
        13 => W::new().str(&maybe_bad_utf8(r, 60)).done(),
        14 | 15 => W::new().d(r.dword()).d(r.dword()).done(),
        16 => W::new().d(r.dword()).d(r.dword()).d(r.dword()).d(r.dword()).done(),
        17 => {
            let n = r.pick(&[0usize, 1, 1, 2, 3, 5]);
            let mut w = W::new().d(n as u32);
            if r.chance(1, 3) {
                w = w.w(0);
                for _ in 0..n {
                    let (t, v) = value(r, depth.saturating_sub(1));
                    w = w.w(t).raw(&v);
                }
            } else {
                let t = if depth <= 1 {
                    r.pick(&[1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19])
                } else {
                    r.range(1, 19) as u16
                };
                w = w.w(t);
                for _ in 0..n {
                    w = w.raw(&value_of(r, t, depth.saturating_sub(1)));
                }
            }
            w.done()
        }
        18 => properties(r, depth.saturating_sub(1)),
        19 => r.bytes(16),
        _ => r.bytes(4),
    }
}
pub fn properties(r: &mut Rng, depth: usize) -> Vec<u8> {
    let n = r.pick(&[0usize, 1, 1, 2, 3]);
    let mut w = W::new().d(n as u32);
    for _ in 0..n {
        let (t, v) = value(r, depth);
        let t = if r.chance(1, 80) { r.pick(&[0u16, 20, 0x14, 0xffff, 21]) } else { t };
        w = w.str(&maybe_bad_utf8(r, 80)).w(t).raw(&v);
    }
    w.done()
}

/// A user data chunk payload
pub fn user_data(r: &mut Rng, props: usize) -> Vec<u8> {
    let mut flags = r.below(4) as u32;
    if r.chance(props, 4) {
        flags |= 4;
    }
    if r.chance(1, 8) {
        flags |= r.dword() & !7;
    }
    let mut w = W::new().d(flags);
    if flags & 1 != 0 {
        w = w.str(&maybe_bad_utf8(r, 30));
    }
    if flags & 2 != 0 {
        w = w.raw(&[r.byte(), r.byte(), r.byte(), r.byte()]);
    }
    if flags & 4 != 0 {
        let n = r.pick(&[0usize, 1, 1, 1, 2, 3]);
        let mut m = vec![];
        for _ in 0..n {
            m.extend(r.dword().to_le_bytes());
            m.extend(properties(r, 3));
        }
        // bytes inside the declared size that no map uses
        if r.chance(1, 6) {
            let k = r.below(5);
            m.extend(r.bytes(k));
        }
        let mut size = m.len() as u32 + 8;
        let mut count = n as u32;
        match r.below(14) {
            0 => size = size.wrapping_sub(r.below(6) as u32),
            1 => size += r.below(6) as u32,
            2 => count += 1,
            3 => count = count.saturating_sub(1),
            4 if r.chance(1, 3) => size = r.pick(&[0u32, 1, 7, 8, 9, 0x7fff_ffff, 0xffff_ffff]),
            5 if r.chance(1, 3) => count = r.dword(),
            _ => {}
        }
        w = w.d(size).d(count).raw(&m);
    }
    w.done()
}

pub const CHUNK_TYPES: [u16; 14] = [
    0x0004, 0x0011, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020, 0x2022, 0x2023,
];

fn count_of(r: &mut Rng) -> usize {
    r.pick(&[0usize, 1, 1, 2, 2, 3, 5])
}

/// Payload (without size and type) of a random chunk of the given type,
/// every field random with a bias to boundary values.
pub fn payload(r: &mut Rng, ty: u16) -> Vec<u8> {
    match ty {
        0x0004 | 0x0011 => {
            let n = count_of(r);
            let mut w = W::new().w(n as u16);
            for _ in 0..n {
                let k = if r.chance(1, 25) { 256 } else { 1 + r.below(6) };
                w = w.b(r.byte()).b(k as u8);
                w = w.raw(&r.bytes(k * 3));
            }
            w.done()
        }
        0x2004 => {
            let ty = r.pick(&[0u16, 0, 1, 1, 2, 2, 3, 4, 0x100, 0xffff]);
            let blend = if r.chance(3, 4) { r.below(22) as u16 } else { r.word() };
            let flags = r.next() as u16;
            let mut w = W::new().w(flags).w(ty).w(r.word()).w(r.word()).w(r.word()).w(blend);
            w = w.b(r.byte()).raw(&r.bytes(3)).str(&maybe_bad_utf8(r, 30));
            if ty == 2 {
                w = w.d(r.dword());
            }
            w.done()
        }
        0x2005 => {
            let ty = r.pick(&[0u16, 1, 2, 3, 4, 5, 0xff, 0x100, 0xffff]);
            let mut w = W::new().w(r.word()).s(r.word() as i16).s(r.word() as i16).b(r.byte()).w(ty);
            w = w.s(r.word() as i16).raw(&r.bytes(5));
            match ty {
                0 | 2 => {
                    w = w.w(r.word()).w(r.word());
                    let n = r.below(20);
                    w = w.raw(&r.bytes(n));
                }
                1 => w = w.w(r.word()),
                3 => {
                    w = w.w(r.word()).w(r.word()).w(r.word()).d(r.dword()).d(r.dword()).d(r.dword()).d(r.dword());
                    let n = r.below(20);
                    w = w.raw(&r.bytes(10)).raw(&r.bytes(n));
                }
                _ => {
                    let n = r.below(20);
                    w = w.raw(&r.bytes(n));
                }
            }
            w.done()
        }
        0x2006 => {
            let n = r.pick(&[0usize, 16, 16, 5]);
            W::new().d(r.dword()).d(r.dword()).d(r.dword()).d(r.dword()).d(r.dword()).raw(&r.bytes(n)).done()
        }
        0x2007 => {
            let ty = r.pick(&[0u16, 1, 2, 2, 3, 4, 0x100, 0x102, 0xffff]);
            let mut w = W::new().w(ty).w(r.word()).d(r.dword()).raw(&r.bytes(8));
            if ty == 2 {
                let n = r.below(12);
                w = w.d(n as u32).raw(&r.bytes(n));
            }
            w.done()
        }
        0x2008 => {
            let n = count_of(r);
            let mut w = W::new().d(n as u32).raw(&r.bytes(8));
            for _ in 0..n {
                let ft = r.pick(&[0u8, 1, 2, 3, 4, 255]);
                w = w.d(r.dword()).b(ft).raw(&r.bytes(7)).str(&maybe_bad_utf8(r, 60));
            }
            w.done()
        }
        0x2016 => {
            let n = r.below(10);
            W::new()
                .s(r.word() as i16)
                .s(r.word() as i16)
                .w(r.word())
                .w(r.word())
                .raw(&r.bytes(8))
                .str(&maybe_bad_utf8(r, 30))
                .raw(&r.bytes(n))
                .done()
        }
        0x2017 => {
            let n = r.below(10);
            r.bytes(n)
        }
        0x2018 => {
            let n = count_of(r);
            let mut w = W::new().w(n as u16).raw(&r.bytes(8));
            for _ in 0..n {
                let (a, b) = (r.word(), r.word());
                let (a, b) = if r.chance(1, 25) { (a, b) } else { (a.min(b), a.max(b)) };
                let dir = r.pick(&[0u8, 1, 2, 3, 4, 5, 255]);
                w = w.w(a).w(b).b(dir).w(r.word()).raw(&r.bytes(6)).raw(&r.bytes(3)).b(r.byte()).str(&maybe_bad_utf8(r, 80));
            }
            w.done()
        }
        0x2019 => {
            let (a, n) = if r.chance(1, 20) {
                (0, 256)
            } else {
                let a = r.byte() as usize;
                (a, 1 + r.below((256 - a).min(6)))
            };
            let size = if r.chance(1, 2) { (a + n) as u32 } else { r.dword() };
            let mut first = a as u32;
            let mut last = (a + n - 1) as u32;
            if r.chance(1, 15) {
                first = r.pick(&[256u32, 257, 0x100 + a as u32, 0xffff_ffff, last + 1, 255]);
            }
            if r.chance(1, 15) {
                last = r.pick(&[256u32, 257, 0x1_0000 + last, 0xffff_ffff, 0]);
            }
            let mut w = W::new().d(size).d(first).d(last).raw(&r.bytes(8));
            for _ in 0..n {
                let f = if r.chance(1, 6) { r.word() } else { 0 };
                w = w.w(f).raw(&r.bytes(4));
                if f & 1 != 0 {
                    w = w.str(&maybe_bad_utf8(r, 60));
                }
            }
            w.done()
        }
        0x2020 => user_data(r, 2),
        0x2022 => {
            let n = count_of(r);
            let flags = if r.chance(1, 6) { r.dword() } else { r.below(4) as u32 };
            let mut w = W::new().d(n as u32).d(flags).d(r.dword()).str(&maybe_bad_utf8(r, 30));
            for _ in 0..n {
                w = w.d(r.dword()).d(r.dword()).d(r.dword()).d(r.dword()).d(r.dword());
                if flags & 1 != 0 {
                    w = w.d(r.dword()).d(r.dword()).d(r.dword()).d(r.dword());
                }
                if flags & 2 != 0 {
                    w = w.d(r.dword()).d(r.dword());
                }
            }
            w.done()
        }
        0x2023 => {
            let flags = if r.chance(1, 6) { r.dword() } else { r.below(64) as u32 };
            let mut w = W::new().d(r.dword()).d(flags).d(r.dword()).w(r.word()).w(r.word()).s(r.word() as i16);
            w = w.raw(&r.bytes(14)).str(&maybe_bad_utf8(r, 30));
            if flags & 1 != 0 {
                w = w.d(r.dword()).d(r.dword());
            }
            if flags & 2 != 0 {
                let n = r.below(12);
                w = w.d(n as u32).raw(&r.bytes(n));
            }
            w.done()
        }
        _ => {
            let n = r.below(16);
            r.bytes(n)
        }
    }
}

pub fn unknown_type(r: &mut Rng) -> u16 {
    loop {
        let t = if r.chance(1, 2) {
            // almost a known one
            let t = r.pick(&CHUNK_TYPES);
            match r.below(4) {
                0 => t ^ 1 << r.below(16),
                1 => t ^ (1 + r.below(15) as u16) << 12,
                2 => t ^ (1 + r.below(255) as u16) << 8,
                _ => t.swap_bytes(),
            }
        } else if r.chance(1, 2) {
            r.pick(&[0u16, 1, 5, 0x10, 0x12, 0x2003, 0x2009, 0x2015, 0x2021, 0x2024, 0x1020, 0xffff, 0x0420])
        } else {
            r.next() as u16
        };
        if !CHUNK_TYPES.contains(&t) {
            return t;
        }
    }
}

/// payload, possibly damaged: truncated, extended, or with a byte changed
pub fn damaged_payload(r: &mut Rng, ty: u16) -> Vec<u8> {
    let mut p = payload(r, ty);
    match r.below(10) {
        0 | 1 => {
            let n = r.below(p.len() + 1);
            p.truncate(n);
        }
        2 => {
            let n = 1 + r.below(9);
            p.extend(r.bytes(n));
        }
        3 if !p.is_empty() => {
            let i = r.below(p.len());
            p[i] = r.byte();
        }
        4 if !p.is_empty() => {
            let i = r.below(p.len().min(16));
            p[i] = r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
        }
        _ => {}
    }
    p
}

pub fn header(r: &mut Rng) -> Hdr {
    let mut h = Hdr::new(r.word(), r.word(), r.pick(&[8u16, 16, 32, 32, 0, 1, 24, 64, 0x2000, 0xffff]));
    h.file_size = r.dword();
    h.flags = r.dword();
    h.speed = r.word();
    h.transparent = r.byte();
    h.ignore = [r.byte(), r.byte(), r.byte()];
    h.colors = r.word();
    h.pw = r.byte();
    h.ph = r.byte();
    h.gx = r.word() as i16;
    h.gy = r.word() as i16;
    h.gw = r.word();
    h.gh = r.word();
    h.future = r.bytes(84);
    h
}

/// anything in the fields that decide nothing about what can be seen
pub fn noise(r: &mut Rng, h: &mut Hdr, frames: &mut [Frame]) {
    if r.chance(1, 3) {
        return;
    }
    let x = header(r);
    let transparent = if h.depth == 8 { h.transparent } else { x.transparent };
    *h = Hdr { magic: h.magic, frames: h.frames, width: h.width, height: h.height, depth: h.depth, transparent, ..x };
    for f in frames {
        f.future = [r.byte(), r.byte()];
        for c in f.chunks.iter_mut().filter(|c| c.len() >= 22) {
            let at: &[usize] = match u16::from_le_bytes([c[4], c[5]]) {
                // level, default size, reserved bytes
                0x2004 => &[10, 11, 12, 13, 14, 15, 19, 20, 21],
                // opacity, z-index, reserved bytes
                0x2005 => &[12, 15, 16, 17, 18, 19, 20, 21],
                _ => &[],
            };
            if r.chance(1, 2) {
                for i in at {
                    c[*i] = r.byte();
                }
            }
        }
    }
}

/// the file, with a header that may not know its size and number of frames
pub fn doc(r: &mut Rng, h: &Hdr, frames: &[Frame]) -> Vec<u8> {
    let mut v = file(h, frames);
    let n = frames.len() as u16;
    if r.chance(1, 6) {
        let k = r.pick(&[0, 1, 127, 128, v.len() as u32 - 1, v.len() as u32 + 1, 0xffff_ffff]);
        let k = if r.chance(1, 2) { k } else { r.dword() };
        v[..4].copy_from_slice(&k.to_le_bytes());
    }
    if r.chance(1, 6) {
        let k = r.pick(&[0, 1, n.wrapping_sub(1), n.wrapping_add(1), 65535, 256]);
        v[6..8].copy_from_slice(&k.to_le_bytes());
    }
    v
}

/// a frame duration, often 0
pub fn dur(r: &mut Rng) -> u16 {
    match r.below(4) {
        0 => 0,
        1 => r.pick(&[1, 255, 256, 65535]),
        _ => r.word(),
    }
}

/// pixel size of a color depth
pub fn psize(depth: u16) -> usize {
    match depth {
        32 => 4,
        16 => 2,
        _ => 1,
    }
}

/// image cel of random small size with intact data; returns the chunk
pub fn image_cel(r: &mut Rng, depth: u16, layer: u16) -> Vec<u8> {
    let (w, h) = (r.range(1, 4) as u16, r.range(1, 4) as u16);
    let data = r.bytes(usize::from(w) * usize::from(h) * psize(depth));
    let (x, y) = (r.range(-4, 8) as i16, r.range(-4, 8) as i16);
    if r.chance(1, 2) {
        cel_raw(layer, x, y, w, h, &data)
    } else {
        let level = r.below(10) as u32;
        cel_zlib(layer, x, y, w, h, &zlib(&data, level))
    }
}

/// A well-formed file using every kind of chunk, of moderate size, which
/// loads successfully.
pub fn good_file(r: &mut Rng) -> Vec<u8> {
    let (h, frames) = good_doc(r);
    doc(r, &h, &frames)
}
pub fn good_doc(r: &mut Rng) -> (Hdr, Vec<Frame>) {
    let depth = r.pick(&[8u16, 16, 32]);
    let mut h = Hdr::new(1 + r.below(6) as u16, 1 + r.below(6) as u16, depth);
    h.transparent = r.below(4) as u8;
    let nl = 1 + r.below(4);
    let nf = 1 + r.below(3);
    let mut types = vec![];
    for _ in 0..nl {
        types.push(r.pick(&[0u16, 0, 0, 1]));
    }
    let mut frames = vec![];
    let mut imaged: Vec<Vec<u16>> = vec![vec![]; nl];
    for f in 0..nf {
        let mut cs = vec![];
        if f == 0 {
            if r.chance(1, 2) {
                cs.push(chunk(0x2007, &W::new().w(1).w(0).d(0).z(8).done()));
            }
            if depth == 8 || r.chance(1, 3) {
                let n = 4 + r.below(5);
                let e: Vec<[u8; 4]> = (0..n).map(|_| [r.byte(), r.byte(), r.byte(), r.byte()]).collect();
                if r.chance(1, 3) {
                    cs.push(old_palette(0x0004, &[(0, e.iter().map(|c| [c[0], c[1], c[2]]).collect())]));
                }
                cs.push(palette(n as u32, 0, n as u32 - 1, &e));
                if r.chance(1, 3) {
                    cs.push(chunk(0x2020, &good_user_data(r)));
                }
            }
            for (i, t) in types.iter().enumerate() {
                let name = format!("L{}", i);
                cs.push(layer(1 + 2 * (r.below(2) as u16), *t, 0, r.below(19) as u16, r.byte(), name.as_bytes(), None));
                if r.chance(1, 3) {
                    cs.push(chunk(0x2020, &good_user_data(r)));
                }
            }
            if r.chance(1, 2) {
                let n = 1 + r.below(2);
                let l: Vec<_> = (0..n).map(|i| (0, nf as u16 - 1, i as u8, i as u16, vec![b'T', b'0' + i as u8])).collect();
                cs.push(tags(&l));
                for _ in 0..r.below(n + 1) {
                    cs.push(chunk(0x2020, &good_user_data(r)));
                }
            }
        }
        for i in 0..nl {
            if types[i] == 1 {
                continue;
            }
            match r.below(4) {
                0 => {}
                1 if !imaged[i].is_empty() => {
                    let t = r.pick(&imaged[i]);
                    cs.push(cel_link(i as u16, r.range(-3, 6) as i16, r.range(-3, 6) as i16, t));
                }
                _ => {
                    cs.push(image_cel(r, depth, i as u16));
                    imaged[i].push(f as u16);
                }
            }
            if r.chance(1, 4) {
                cs.push(chunk(0x2006, &W::new().d(1).d(0x10000).d(0).d(2).d(3).z(16).done()));
            } else if r.chance(1, 4) {
                cs.push(chunk(0x2020, &good_user_data(r)));
            }
        }
        if r.chance(1, 3) {
            let fl = r.below(4) as u32;
            let mut w = W::new().d(1).d(fl).d(0).str(b"sl").d(0).d(1).d(2).d(3).d(4);
            if fl & 1 != 0 {
                w = w.d(1).d(2).d(3).d(4);
            }
            if fl & 2 != 0 {
                w = w.d(5).d(6);
            }
            cs.push(chunk(0x2022, &w.done()));
        }
        if r.chance(1, 4) {
            cs.push(chunk(0x2008, &W::new().d(1).z(8).d(7).b(1).z(7).str(b"x.ase").done()));
        }
        if r.chance(1, 4) {
            cs.push(chunk(0x2023, &W::new().d(0).d(3).d(1).w(1).w(1).s(1).z(14).str(b"ts").d(1).d(2).d(3).raw(&[1, 2, 3]).done()));
        }
        if r.chance(1, 4) {
            cs.push(chunk(0x2016, &W::new().s(0).s(0).w(8).w(1).z(8).str(b"m").b(0xf0).done()));
        }
        if r.chance(1, 4) {
            let t = unknown_type(r);
            cs.push(chunk(t, &[1, 2, 3]));
        }
        let mut fr = Frame::new(dur(r), cs);
        if r.chance(1, 2) {
            fr.new_count = Some(fr.chunks.len() as u32);
            if !fr.chunks.is_empty() && r.chance(1, 3) {
                fr.old_count = Some(0xffff);
            }
        }
        frames.push(fr);
    }
    (h, frames)
}

/// user data payload that decodes without errors
pub fn good_user_data(r: &mut Rng) -> Vec<u8> {
    let flags = r.below(8) as u32;
    let mut w = W::new().d(flags);
    if flags & 1 != 0 {
        w = w.str(&utf8(r));
    }
    if flags & 2 != 0 {
        w = w.raw(&[r.byte(), r.byte(), r.byte(), r.byte()]);
    }
    if flags & 4 != 0 {
        let mut m = vec![];
        for _ in 0..1 + r.below(2) {
            m.extend(r.dword().to_le_bytes());
            m.extend(properties(r, 2));
        }
        w = w.d(m.len() as u32 + 8).d(1).raw(&m);
    }
    w.done()
}
