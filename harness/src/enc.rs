//! Encoder for the .aseprite container and chunk formats, written from the
//! file format specification (not from the parser under test).
#![allow(clippy::too_many_arguments)]

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> Self {
        W(Vec::new())
    }
    pub fn b(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn w(mut self, v: u16) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn s(mut self, v: i16) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn d(mut self, v: u32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn z(mut self, n: usize) -> Self {
        self.0.extend(std::iter::repeat(0).take(n));
        self
    }
    pub fn raw(mut self, v: &[u8]) -> Self {
        self.0.extend_from_slice(v);
        self
    }
    pub fn str(self, v: &[u8]) -> Self {
        self.w(v.len() as u16).raw(v)
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

#[derive(Clone)]
pub struct Hdr {
    pub file_size: u32,
    pub magic: u16,
    pub frames: u16,
    pub width: u16,
    pub height: u16,
    pub depth: u16,
    pub flags: u32,
    pub speed: u16,
    pub zero1: [u8; 4],
    pub zero2: [u8; 4],
    pub transparent: u8,
    pub ignore: [u8; 3],
    pub colors: u16,
    pub pw: u8,
    pub ph: u8,
    pub gx: i16,
    pub gy: i16,
    pub gw: u16,
    pub gh: u16,
    pub future: Vec<u8>,
}
impl Hdr {
    pub fn new(width: u16, height: u16, depth: u16) -> Self {
        Hdr {
            file_size: 0,
            magic: 0xA5E0,
            frames: 1,
            width,
            height,
            depth,
            flags: 1,
            speed: 100,
            zero1: [0; 4],
            zero2: [0; 4],
            transparent: 0,
            ignore: [0; 3],
            colors: 0,
            pw: 1,
            ph: 1,
            gx: 0,
            gy: 0,
            gw: 16,
            gh: 16,
            future: vec![0; 84],
        }
    }
    pub fn enc(&self) -> Vec<u8> {
        let v = W::new()
            .d(self.file_size)
            .w(self.magic)
            .w(self.frames)
            .w(self.width)
            .w(self.height)
            .w(self.depth)
            .d(self.flags)
            .w(self.speed)
            .raw(&self.zero1)
            .raw(&self.zero2)
            .b(self.transparent)
            .raw(&self.ignore)
            .w(self.colors)
            .b(self.pw)
            .b(self.ph)
            .s(self.gx)
            .s(self.gy)
            .w(self.gw)
            .w(self.gh)
            .raw(&self.future)
            .done();
        assert_eq!(v.len(), 128);
        v
    }
}

pub fn chunk(ty: u16, payload: &[u8]) -> Vec<u8> {
    W::new().d(payload.len() as u32 + 6).w(ty).raw(payload).done()
}

#[derive(Clone)]
pub struct Frame {
    pub duration: u16,
    /// short chunk count; None = number of chunks
    pub old_count: Option<u16>,
    /// extended chunk count; None = 0
    pub new_count: Option<u32>,
    pub magic: u16,
    pub future: [u8; 2],
    pub chunks: Vec<Vec<u8>>,
    /// bytes after the last chunk
    pub trailing: Vec<u8>,
}
impl Frame {
    pub fn new(duration: u16, chunks: Vec<Vec<u8>>) -> Self {
        Frame {
            duration,
            old_count: None,
            new_count: None,
            magic: 0xF1FA,
            future: [0; 2],
            chunks,
            trailing: vec![],
        }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut body = W::new()
            .w(self.magic)
            .w(self.old_count.unwrap_or(self.chunks.len() as u16))
            .w(self.duration)
            .raw(&self.future)
            .d(self.new_count.unwrap_or(0));
        for c in &self.chunks {
            body = body.raw(c);
        }
        body = body.raw(&self.trailing);
        W::new().d(body.0.len() as u32 + 4).raw(&body.0).done()
    }
}

pub fn file(h: &Hdr, frames: &[Frame]) -> Vec<u8> {
    let mut h = h.clone();
    h.frames = frames.len() as u16;
    let mut body = vec![];
    for f in frames {
        body.extend(f.enc());
    }
    h.file_size = 128 + body.len() as u32;
    let mut v = h.enc();
    v.extend(body);
    v
}

pub fn layer(flags: u16, ty: u16, child: u16, blend: u16, opacity: u8, name: &[u8], tileset: Option<u32>) -> Vec<u8> {
    let mut w = W::new().w(flags).w(ty).w(child).w(0).w(0).w(blend).b(opacity).z(3).str(name);
    if let Some(t) = tileset {
        w = w.d(t);
    }
    chunk(0x2004, &w.done())
}
pub fn cel_head(layer: u16, x: i16, y: i16, opacity: u8, ty: u16, z: i16) -> W {
    W::new().w(layer).s(x).s(y).b(opacity).w(ty).s(z).z(5)
}
pub fn cel_raw(layer: u16, x: i16, y: i16, w: u16, h: u16, data: &[u8]) -> Vec<u8> {
    chunk(0x2005, &cel_head(layer, x, y, 255, 0, 0).w(w).w(h).raw(data).done())
}
pub fn cel_zlib(layer: u16, x: i16, y: i16, w: u16, h: u16, z: &[u8]) -> Vec<u8> {
    chunk(0x2005, &cel_head(layer, x, y, 255, 2, 0).w(w).w(h).raw(z).done())
}
pub fn cel_link(layer: u16, x: i16, y: i16, frame: u16) -> Vec<u8> {
    chunk(0x2005, &cel_head(layer, x, y, 255, 1, 0).w(frame).done())
}
pub fn user_text(t: &[u8]) -> Vec<u8> {
    chunk(0x2020, &W::new().d(1).str(t).done())
}
pub fn tags(list: &[(u16, u16, u8, u16, Vec<u8>)]) -> Vec<u8> {
    let mut w = W::new().w(list.len() as u16).z(8);
    for (a, b, dir, rep, name) in list {
        w = w.w(*a).w(*b).b(*dir).w(*rep).z(6).z(3).b(0).str(name);
    }
    chunk(0x2018, &w.done())
}
pub fn palette(size: u32, first: u32, last: u32, entries: &[[u8; 4]]) -> Vec<u8> {
    let mut w = W::new().d(size).d(first).d(last).z(8);
    for e in entries {
        w = w.w(0).raw(e);
    }
    chunk(0x2019, &w.done())
}
pub fn old_palette(ty: u16, packets: &[(u8, Vec<[u8; 3]>)]) -> Vec<u8> {
    let mut w = W::new().w(packets.len() as u16);
    for (skip, cols) in packets {
        w = w.b(*skip).b(cols.len() as u8); // 256 wraps to 0 as the format wants
        for c in cols {
            w = w.raw(c);
        }
    }
    chunk(ty, &w.done())
}
pub fn slice_simple(name: &[u8]) -> Vec<u8> {
    chunk(0x2022, &W::new().d(0).d(0).d(0).str(name).done())
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// length of the zlib stream at the beginning of `d`, if it is complete
pub fn zlen(d: &[u8]) -> Option<usize> {
    let mut z = flate2::Decompress::new(true);
    let mut buf = [0; 4096];
    loop {
        let (i, o) = (z.total_in(), z.total_out());
        match z.decompress(&d[i as usize..], &mut buf, flate2::FlushDecompress::None) {
            Ok(flate2::Status::StreamEnd) => return Some(z.total_in() as usize),
            Ok(_) if z.total_in() == i && z.total_out() == o => return None,
            Ok(_) => {}
            Err(_) => return None,
        }
    }
}
