//! Projection of the library's values into the vocabulary of the
//! specification (JSON).  Wide integers and floats are reported as their
//! little-endian bytes, borrowed data as [offset, length] into the input
//! ("content" mode reports the bytes themselves instead).
#![allow(deprecated)]
use aseprite_loader::binary::{
    blend_mode::BlendMode,
    chunk::Chunk,
    chunks::{
        cel::{CelChunk, CelContent},
        cel_extra::{CelExtraChunk, CelExtraFlags},
        color_profile::{ColorProfile, ColorProfileChunk},
        external_files::{ExternalFileType, ExternalFilesChunk},
        layer::{LayerChunk, LayerFlags, LayerType},
        mask::MaskChunk,
        old_palette::OldPaletteChunk,
        palette::PaletteChunk,
        slice::{SliceChunk, SliceFlags},
        tags::{AnimationDirection, Tag, TagsChunk},
        tileset::{TilesetChunk, TilesetFlags},
        user_data::{PropertiesMap, UserDataChunk, Value as PV, Vector},
    },
    color_depth::ColorDepth,
    file::File,
    header::Header,
    raw_file::RawFile,
    scalars::{Color, Fixed, Point, Rect, Size},
};
use aseprite_loader::loader::AsepriteFile;
use serde_json::{json, Value};

#[derive(Clone, Copy)]
pub struct Ctx {
    pub base: usize,
    pub len: usize,
    pub content: bool,
}

fn ja<T, F: Fn(&T) -> Value>(v: &[T], f: F) -> Value {
    Value::Array(v.iter().map(f).collect())
}
pub fn bytes(v: &[u8]) -> Value {
    Value::Array(v.iter().map(|b| Value::from(*b)).collect())
}
fn opt(v: Option<Value>) -> Value {
    match v {
        Some(v) => json!([v]),
        None => json!([]),
    }
}
fn b4(v: u32) -> Value {
    bytes(&v.to_le_bytes())
}
fn i4(v: i32) -> Value {
    bytes(&v.to_le_bytes())
}
fn fixed(f: &Fixed) -> Value {
    json!([f.0, f.1])
}
fn color(c: &Color) -> Value {
    json!([c.red, c.green, c.blue, c.alpha])
}
fn blend(m: BlendMode) -> (String, u32) {
    match m {
        BlendMode::Unknown(n) => ("Unknown".into(), n.into()),
        m => (format!("{:?}", m), 0),
    }
}
fn layer_type(m: LayerType) -> (String, u32) {
    match m {
        LayerType::Unknown(n) => ("Unknown".into(), n.into()),
        m => (format!("{:?}", m), 0),
    }
}
fn direction(m: AnimationDirection) -> (String, u32) {
    match m {
        AnimationDirection::Unknown(n) => ("Unknown".into(), n.into()),
        m => (format!("{:?}", m), 0),
    }
}
fn depth(m: ColorDepth) -> (String, u32) {
    match m {
        ColorDepth::Unknown(n) => ("Unknown".into(), n.into()),
        m => (format!("{:?}", m), m.bpp().into()),
    }
}

/// every code of every enumeration
pub fn codes() -> Vec<Value> {
    fn all(en: &str, n: u32, f: impl Fn(u32) -> (String, u32)) -> Value {
        let (mut known, mut kept) = (vec![], 0);
        for i in 0..n {
            match f(i) {
                (k, v) if k == "Unknown" => kept += u32::from(v == i),
                (k, _) => known.push(json!([i, k])),
            }
        }
        json!({"e": "codes", "en": en, "known": known, "kept": kept, "all": n})
    }
    let mut sizes = vec![];
    let d = all("ColorDepth", 65536, |i| {
        let d = ColorDepth::from(i as u16);
        if u32::from(d.bpp()) == i {
            depth(d)
        } else {
            ("wrong".into(), i)
        }
    });
    for i in 0..=65535u16 {
        if let Some(n) = ColorDepth::from(i).pixel_size() {
            sizes.push(json!([i, n]));
        }
    }
    let mut d = d;
    d["sizes"] = json!(sizes);
    vec![
        d,
        all("BlendMode", 65536, |i| blend(BlendMode::from(i as u16))),
        all("LayerType", 65536, |i| layer_type(LayerType::from(i as u16))),
        all("Direction", 256, |i| direction(AnimationDirection::from(i as u8))),
        all("FileType", 256, |i| file_type(ExternalFileType::from(i as u8))),
    ]
}
fn file_type(t: ExternalFileType) -> (String, u32) {
    match t {
        ExternalFileType::ExternalPalette => ("Palette".into(), 0),
        ExternalFileType::ExternalTileset => ("Tileset".into(), 0),
        ExternalFileType::ExtensionNameForProperties => ("Extension".into(), 0),
        ExternalFileType::Unknown(n) => ("Unknown".into(), n.into()),
    }
}

impl Ctx {
    pub fn of(input: &[u8]) -> Self {
        Ctx {
            base: input.as_ptr() as usize,
            len: input.len(),
            content: false,
        }
    }
    pub fn content(input: &[u8]) -> Self {
        Ctx {
            content: true,
            ..Self::of(input)
        }
    }
    pub fn st(&self, s: &[u8]) -> Value {
        if self.content {
            return bytes(s);
        }
        if s.is_empty() {
            return json!([0, 0]);
        }
        let p = s.as_ptr() as usize;
        if p < self.base || p + s.len() > self.base + self.len {
            return json!([-1, s.len()]);
        }
        json!([p - self.base, s.len()])
    }

    pub fn header(&self, h: &Header) -> Value {
        let (dk, dv) = depth(h.color_depth);
        json!({"fs": b4(h.file_size), "fr": h.frames, "w": h.width, "h": h.height,
            "dk": dk, "dv": dv, "fl": b4(h.flags), "sp": h.speed, "ti": h.transparent_index,
            "cc": h.color_count, "pw": h.pixel_width, "ph": h.pixel_height,
            "gx": h.grid_x, "gy": h.grid_y, "gw": h.grid_width, "gh": h.grid_height})
    }
    pub fn raw(&self, f: &RawFile<'_>) -> Value {
        json!({"hdr": self.header(&f.header),
            "frames": ja(&f.frames, |f| json!({"dur": f.duration, "chunks": ja(&f.chunks, |c| self.chunk(c))}))})
    }
    pub fn chunk(&self, c: &Chunk<'_>) -> Value {
        match c {
            Chunk::Palette0004(p) => self.old_palette("Palette0004", p),
            Chunk::Palette0011(p) => self.old_palette("Palette0011", p),
            Chunk::Layer(l) => self.layer(l),
            Chunk::Cel(c) => self.cel(c),
            Chunk::CelExtra(c) => self.cel_extra(c),
            Chunk::ColorProfile(c) => self.color_profile(c),
            Chunk::ExternalFiles(c) => self.external_files(c),
            Chunk::Mask(c) => self.mask(c),
            Chunk::Path => json!({"t": "Path"}),
            Chunk::Tags(c) => self.tags(c),
            Chunk::Palette(c) => self.palette(c),
            Chunk::UserData(c) => self.user_data(c),
            Chunk::Slice(c) => self.slice(c),
            Chunk::Tileset(c) => self.tileset(c),
            Chunk::Unsupported(n) => json!({"t": "Unsupported", "code": n}),
        }
    }
    fn old_palette(&self, t: &str, p: &OldPaletteChunk) -> Value {
        json!({"t": t, "packets": ja(&p.packets, |p| json!({"skip": p.entries_to_skip,
            "colors": ja(&p.colors, |c| json!([c.red, c.green, c.blue]))}))})
    }
    fn ud(&self, u: &Option<UserDataChunk<'_>>) -> Value {
        opt(u.as_ref().map(|u| self.user_data(u)))
    }
    pub fn layer(&self, l: &LayerChunk<'_>) -> Value {
        let (bk, bv) = blend(l.blend_mode);
        let (lk, lv) = layer_type(l.layer_type);
        let f = |x: LayerFlags| u8::from(l.flags.contains(x));
        json!({"t": "Layer",
            "vis": f(LayerFlags::VISIBLE), "edit": f(LayerFlags::EDITABLE),
            "lock": f(LayerFlags::LOCK_MOVEMENT), "bg": f(LayerFlags::BACKGROUND),
            "plc": f(LayerFlags::PREFER_LINKED_CELS), "coll": f(LayerFlags::COLLAPSED),
            "ref": f(LayerFlags::REFERENCE),
            "lk": lk, "lv": lv, "child": l.child_level, "bk": bk, "bv": bv, "op": l.opacity,
            "name": self.st(l.name.as_bytes()), "tsi": opt(l.tileset_index.map(b4)),
            "ud": self.ud(&l.user_data)})
    }
    pub fn cel(&self, c: &CelChunk<'_>) -> Value {
        let (mut ck, mut w, mut h, mut comp, mut data) = ("Image", 0, 0, 0, json!([0, 0]));
        let (mut fp, mut bpt, mut ct) = (0, 0, 0);
        let zero = b4(0);
        let (mut mid, mut mx, mut my, mut md) = (zero.clone(), zero.clone(), zero.clone(), zero);
        match &c.content {
            CelContent::Image(i) => {
                w = i.width;
                h = i.height;
                comp = u8::from(i.compressed);
                data = self.img(i);
            }
            CelContent::LinkedCel { frame_position } => {
                ck = "Linked";
                fp = *frame_position;
            }
            CelContent::CompressedTilemap {
                width,
                height,
                bits_per_tile,
                bitmask_tile_id,
                bitmask_x_flip,
                bitmask_y_flip,
                bitmask_diagonal_flip,
                data: d,
            } => {
                ck = "Tilemap";
                w = *width;
                h = *height;
                bpt = *bits_per_tile;
                mid = b4(*bitmask_tile_id);
                mx = b4(*bitmask_x_flip);
                my = b4(*bitmask_y_flip);
                md = b4(*bitmask_diagonal_flip);
                data = self.st(d);
            }
            CelContent::Unknown { cel_type, data: d } => {
                ck = "Unknown";
                ct = *cel_type;
                data = self.st(d);
            }
        }
        json!({"t": "Cel", "li": c.layer_index, "x": c.x, "y": c.y, "op": c.opacity, "z": c.z_index,
            "ck": ck, "w": w, "h": h, "comp": comp, "data": data, "fp": fp, "bpt": bpt,
            "mid": mid, "mx": mx, "my": my, "md": md, "ct": ct, "ud": self.ud(&c.user_data)})
    }
    fn cel_extra(&self, c: &CelExtraChunk<'_>) -> Value {
        json!({"t": "CelExtra",
            "precise": u8::from(c.flags.contains(CelExtraFlags::PRECISE_BOUNDS_ARE_SET)),
            "x": fixed(&c.precise_x_position), "y": fixed(&c.precise_y_position),
            "w": fixed(&c.width_of_the_cel), "h": fixed(&c.height_of_the_cel),
            "fut": self.st(c.future)})
    }
    fn color_profile(&self, c: &ColorProfileChunk<'_>) -> Value {
        let (pk, pv, icc) = match &c.profile {
            ColorProfile::NoColorProfile => ("None", 0, json!([])),
            ColorProfile::Srgb => ("Srgb", 0, json!([])),
            ColorProfile::EmbeddedICC(d) => ("Icc", 0, json!([self.st(d)])),
            ColorProfile::Unknown(n) => ("Unknown", *n, json!([])),
        };
        json!({"t": "ColorProfile", "gamma": opt(c.fixed_gamma.as_ref().map(fixed)),
            "pk": pk, "pv": pv, "icc": icc})
    }
    fn external_files(&self, c: &ExternalFilesChunk<'_>) -> Value {
        json!({"t": "ExternalFiles", "files": ja(&c.files, |f| {
            let (fk, fv) = match f.file_type {
                ExternalFileType::ExternalPalette => ("Palette", 0),
                ExternalFileType::ExternalTileset => ("Tileset", 0),
                ExternalFileType::ExtensionNameForProperties => ("Extension", 0),
                ExternalFileType::Unknown(n) => ("Unknown", n),
            };
            json!({"id": b4(f.entry_id), "fk": fk, "fv": fv, "name": self.st(f.file_name.as_bytes())})
        })})
    }
    fn mask(&self, c: &MaskChunk<'_>) -> Value {
        json!({"t": "Mask", "x": c.x, "y": c.y, "w": c.width, "h": c.height,
            "name": self.st(c.name.as_bytes()), "data": self.st(c.data)})
    }
    pub fn tag(&self, t: &Tag<'_>) -> Value {
        let (dk, dv) = direction(t.animation_direction);
        json!({"from": t.frames.start(), "to": t.frames.end(), "dk": dk, "dv": dv,
            "rep": t.animation_repeat, "col": t.color, "name": self.st(t.name.as_bytes()),
            "ud": self.ud(&t.user_data)})
    }
    fn tags(&self, c: &TagsChunk<'_>) -> Value {
        json!({"t": "Tags", "tags": ja(&c.tags, |t| self.tag(t))})
    }
    fn palette(&self, c: &PaletteChunk<'_>) -> Value {
        json!({"t": "Palette", "first": c.indices.start(), "last": c.indices.end(),
            "entries": ja(&c.entries, |e| json!({"c": color(&e.color),
                "name": opt(e.name.map(|n| self.st(n.as_bytes())))}))})
    }
    pub fn slice(&self, c: &SliceChunk<'_>) -> Value {
        json!({"t": "Slice", "name": self.st(c.name.as_bytes()),
            "nine": u8::from(c.flags.contains(SliceFlags::NINE_PATCH)),
            "pivot": u8::from(c.flags.contains(SliceFlags::PIVOT)),
            "keys": ja(&c.slice_keys, |k| json!({"f": b4(k.frame_number), "x": i4(k.x), "y": i4(k.y),
                "w": b4(k.width), "h": b4(k.height),
                "np": opt(k.nine_patch.map(|n| json!([i4(n.x), i4(n.y), b4(n.width), b4(n.height)]))),
                "pv": opt(k.pivot.map(|p| json!([i4(p.x), i4(p.y)])))})),
            "ud": self.ud(&c.user_data)})
    }
    fn tileset(&self, c: &TilesetChunk<'_>) -> Value {
        let f = |x: TilesetFlags| u8::from(c.flags.contains(x));
        json!({"t": "Tileset", "id": b4(c.id),
            "fl": [f(TilesetFlags::EXTERNAL_FILE), f(TilesetFlags::TILES), f(TilesetFlags::TILE_0_EMPTY),
                   f(TilesetFlags::XFLIP), f(TilesetFlags::YFLIP), f(TilesetFlags::DFLIP)],
            "n": b4(c.number_of_tiles), "w": c.width, "h": c.height, "bi": c.base_index,
            "name": self.st(c.name.as_bytes()),
            "ext": opt(c.external_file.map(|e| json!([b4(e.external_file_id), b4(e.tileset_id)]))),
            "tiles": opt(c.tiles.as_ref().map(|t| self.st(t.data)))})
    }
    pub fn user_data(&self, u: &UserDataChunk<'_>) -> Value {
        json!({"t": "UserData", "text": opt(u.text.map(|t| self.st(t.as_bytes()))),
            "color": opt(u.color.as_ref().map(color)),
            "props": opt(u.properties_maps.as_ref().map(|p| match p {
                Ok((_, maps)) => json!({"ok": 1, "maps": ja(maps, |m| self.map(m))}),
                Err(_) => json!({"ok": 0, "maps": []}),
            }))})
    }
    /// nested maps have no key: what the library reports there is unspecified
    fn nested(&self, m: &PropertiesMap<'_>) -> Value {
        let mut v = self.map(m);
        v["b"] = b4(0);
        v
    }
    fn map(&self, m: &PropertiesMap<'_>) -> Value {
        json!({"t": "Map", "b": b4(m.extension_entry_id),
            "n": ja(&m.properties, |p| self.st(p.name.as_bytes())),
            "s": ja(&m.properties, |p| self.value(&p.value))})
    }
    fn point(&self, p: &Point) -> Value {
        leaf("Point", &[&p.x.to_le_bytes()[..], &p.y.to_le_bytes()[..]].concat())
    }
    fn size(&self, p: &Size) -> Value {
        leaf("Size", &[&p.width.to_le_bytes()[..], &p.height.to_le_bytes()[..]].concat())
    }
    fn rect(&self, p: &Rect) -> Value {
        leaf(
            "Rect",
            &[
                &p.point.x.to_le_bytes()[..],
                &p.point.y.to_le_bytes()[..],
                &p.size.width.to_le_bytes()[..],
                &p.size.height.to_le_bytes()[..],
            ]
            .concat(),
        )
    }
    fn fixed(&self, f: &Fixed) -> Value {
        // stored as low word (fraction), high word (integer part)
        leaf("Fixed", &[&f.1.to_le_bytes()[..], &f.0.to_le_bytes()[..]].concat())
    }
    fn string(&self, s: &str) -> Value {
        json!({"t": "String", "b": self.st(s.as_bytes()), "n": [], "s": []})
    }
    pub fn value(&self, v: &PV<'_>) -> Value {
        match v {
            PV::Bool(x) => leaf("Bool", &[u8::from(*x)]),
            PV::Int8(x) => leaf("Int8", &x.to_le_bytes()),
            PV::Uint8(x) => leaf("Uint8", &x.to_le_bytes()),
            PV::Int16(x) => leaf("Int16", &x.to_le_bytes()),
            PV::Uint16(x) => leaf("Uint16", &x.to_le_bytes()),
            PV::Int32(x) => leaf("Int32", &x.to_le_bytes()),
            PV::Uint32(x) => leaf("Uint32", &x.to_le_bytes()),
            PV::Int64(x) => leaf("Int64", &x.to_le_bytes()),
            PV::Uint64(x) => leaf("Uint64", &x.to_le_bytes()),
            PV::Fixed(x) => self.fixed(x),
            PV::Float(x) => leaf("Float", &x.to_bits().to_le_bytes()),
            PV::Double(x) => leaf("Double", &x.to_bits().to_le_bytes()),
            PV::String(x) => self.string(x),
            PV::Point(x) => self.point(x),
            PV::Size(x) => self.size(x),
            PV::Rect(x) => self.rect(x),
            PV::Vector(x) => self.vector(x),
            PV::MixedVector(x) => {
                json!({"t": "Vector", "b": [0, 0], "n": [], "s": ja(x, |v| self.value(v))})
            }
            PV::PropertiesMap(x) => self.nested(x),
            PV::Uuid(x) => leaf("Uuid", &x.to_le_bytes()),
        }
    }
    fn vector(&self, v: &Vector<'_>) -> Value {
        macro_rules! num {
            ($t:expr, $v:expr) => {
                ja($v, |x| leaf($t, &x.to_le_bytes()))
            };
        }
        let (et, s) = match v {
            Vector::Mixed(v) => (0u16, ja(v, |v| self.value(v))),
            Vector::Bool(v) => (1, ja(v, |x| leaf("Bool", &[u8::from(*x)]))),
            Vector::Int8(v) => (2, num!("Int8", v)),
            Vector::Uint8(v) => (3, num!("Uint8", v)),
            Vector::Int16(v) => (4, num!("Int16", v)),
            Vector::Uint16(v) => (5, num!("Uint16", v)),
            Vector::Int32(v) => (6, num!("Int32", v)),
            Vector::Uint32(v) => (7, num!("Uint32", v)),
            Vector::Int64(v) => (8, num!("Int64", v)),
            Vector::Uint64(v) => (9, num!("Uint64", v)),
            Vector::Fixed(v) => (10, ja(v, |x| self.fixed(x))),
            Vector::Float(v) => (11, ja(v, |x| leaf("Float", &x.to_bits().to_le_bytes()))),
            Vector::Double(v) => (12, ja(v, |x| leaf("Double", &x.to_bits().to_le_bytes()))),
            Vector::String(v) => (13, ja(v, |x| self.string(x))),
            Vector::Point(v) => (14, ja(v, |x| self.point(x))),
            Vector::Size(v) => (15, ja(v, |x| self.size(x))),
            Vector::Rect(v) => (16, ja(v, |x| self.rect(x))),
            Vector::Vector(v) => (17, ja(v, |x| self.vector(x))),
            Vector::PropertiesMap(v) => (18, ja(v, |x| self.nested(x))),
            Vector::Uuid(v) => (19, num!("Uuid", v)),
        };
        json!({"t": "Vector", "b": bytes(&et.to_le_bytes()), "n": [], "s": s})
    }

    pub fn file(&self, f: &File<'_>) -> Value {
        json!({"hdr": self.header(&f.header),
            "pal": opt(f.palette.as_ref().map(|p| ja(&p.colors, color))),
            "layers": ja(&f.layers, |l| self.layer(l)),
            "frames": ja(&f.frames, |f| json!({"dur": f.duration,
                "cels": ja(&f.cels, |c| opt(c.as_ref().map(|c| self.cel(c))))})),
            "tags": ja(&f.tags, |t| self.tag(t)),
            "slices": ja(&f.slices, |s| self.slice(s)),
            "ud": self.ud(&f.user_data)})
    }
    /// like `file`, without the palette (which is large)
    pub fn file_nopal(&self, f: &File<'_>) -> Value {
        let mut v = self.file(f);
        v["pal"] = json!([]);
        v
    }
    pub fn view_layer(&self, l: &aseprite_loader::loader::Layer) -> Value {
        let (bk, bv) = blend(l.blend_mode);
        let (lk, lv) = layer_type(l.layer_type);
        json!({"name": bytes(l.name.as_bytes()), "op": l.opacity, "bk": bk, "bv": bv,
            "vis": u8::from(l.visible), "lk": lk, "lv": lv})
    }
    pub fn view_cel(&self, c: &aseprite_loader::loader::FrameCel) -> Value {
        json!({"x": c.origin.0, "y": c.origin.1, "w": c.size.0,
            "h": c.size.1, "l": c.layer_index, "i": c.image_index})
    }
    /// what comes behind a complete stream is no content
    fn img(&self, i: &aseprite_loader::binary::image::Image<'_>) -> Value {
        if self.content && i.compressed {
            return bytes(&i.data[..crate::enc::zlen(i.data).unwrap_or(i.data.len())]);
        }
        self.st(i.data)
    }
    pub fn view_image(&self, i: &aseprite_loader::binary::image::Image<'_>) -> Value {
        json!({"w": i.width, "h": i.height, "data": self.img(i), "comp": u8::from(i.compressed)})
    }
    pub fn view(&self, a: &AsepriteFile<'_>) -> Value {
        let (w, h) = a.size();
        json!({"w": w, "h": h,
            "layers": ja(a.layers(), |l| self.view_layer(l)),
            "frames": ja(a.frames(), |f| json!({"dur": f.duration, "ox": f.origin.0, "oy": f.origin.1,
                "cels": ja(&f.cels, |c| self.view_cel(c))})),
            "tags": ja(a.tags(), |t| {
                let (dk, dv) = direction(t.direction);
                json!({"name": bytes(t.name.as_bytes()), "from": t.range.start(), "to": t.range.end(),
                    "dk": dk, "dv": dv, "rep": opt(t.repeat.map(|r| json!(r)))})
            }),
            "images": ja(&a.images, |i| self.view_image(i)),
            "nimg": a.image_count(),
            "slices": ja(a.slices(), |s| self.slice(s))})
    }
}

fn leaf(t: &str, b: &[u8]) -> Value {
    json!({"t": t, "b": bytes(b), "n": [], "s": []})
}

/// pixels as [[r,g,b,a], ...]
pub fn pixels(b: &[u8]) -> Value {
    Value::Array(b.chunks(4).map(bytes).collect())
}
