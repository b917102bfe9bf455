From 3296f89386bbabcfe3b3588937d51173445369f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:55 +0000
Subject: [PATCH 01/16] fix: reject cels whose layer index equals the layer
 count

The bounds check was off by one, so such a file panicked.
---
 src/binary/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index 153018a..fa6de72 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -104,7 +104,7 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     }
                     for cel in frame_cels {
                         let layer_index: usize = cel.layer_index.into();
-                        if layer_index > layers.len() {
+                        if layer_index >= layers.len() {
                             return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                         }
                         cels[layer_index] = Some(cel);
-- 
2.43.0


From be74c069c76b4463ed32257e7e61de65780e0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:56 +0000
Subject: [PATCH 02/16] fix: reject properties maps with a size below 8

The subtraction of the two size fields underflowed.
---
 src/binary/chunks/user_data.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 102e94b..777785d 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -2,6 +2,7 @@ use bitflags::bitflags;
 use nom::{
     bytes::complete::take,
     combinator::{cond, map},
+    error::{ErrorKind, ParseError as _},
     multi::count,
     number::complete::{
         le_f32, le_f64, le_i16, le_i32, le_i64, le_i8, le_u16, le_u32, le_u64, le_u8,
@@ -144,8 +145,16 @@ pub fn parse_properties_maps(
 ) -> ParseResult<'_, ParseResult<'_, Vec<PropertiesMap<'_>>>> {
     let (input, size_maps) = parse_dword_as_usize(input)?;
     let (input, num_maps) = parse_dword_as_usize(input)?;
-    // FIXME handle underflows
-    let (input, input_maps) = take(size_maps - 8)(input)?;
+    // The size includes both this field and the number of maps.
+    let (input, input_maps) = match size_maps.checked_sub(8) {
+        Some(size) => take(size)(input)?,
+        None => {
+            return Err(nom::Err::Failure(ParseError::from_error_kind(
+                input,
+                ErrorKind::Verify,
+            )))
+        }
+    };
     Ok((
         input,
         count(parse_properties_map, num_maps).parse(input_maps),
-- 
2.43.0


From 9d78a67df8f9e9fc47575f808f22aef885ea0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:15 +0000
Subject: [PATCH 03/16] fix: report raw RGBA data of the wrong length instead
 of panicking

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 59c05fc..efecfec 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -359,7 +359,12 @@ impl AsepriteFile<'_> {
         }
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
-            (ColorDepth::Rgba, false) => target.copy_from_slice(image.data),
+            (ColorDepth::Rgba, false) => {
+                if target.len() != image.data.len() {
+                    return Err(LoadImageError::InvalidImageData);
+                }
+                target.copy_from_slice(image.data);
+            }
             (ColorDepth::Rgba, true) => decompress(image.data, target)?,
             (ColorDepth::Grayscale, false) => {
                 grayscale_to_rgba(image.data, target)?;
-- 
2.43.0


From ae2ee67dbaca81dd56218a59921bc967f0c74f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:16 +0000
Subject: [PATCH 04/16] fix: propagate image decoding errors from render_frame
 instead of panicking

---
 src/loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index efecfec..303131b 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -308,7 +308,7 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target).unwrap();
+            self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
-- 
2.43.0


From 5f89564b4e8715d3345035a7877a983fc374ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 05/16] fix: report unknown blend modes as an error instead of
 panicking

---
 src/loader/blend.rs | 8 ++++----
 src/loader/mod.rs   | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index fd99090..f368b1a 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -106,8 +106,8 @@ impl From<&[f64; 4]> for Color {
 }
 
 type BlendFn = fn(Color, Color, u8) -> Color;
-pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
-    match mode {
+pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> Option<BlendFn> {
+    Some(match mode {
         BlendMode::Normal => normal,
         BlendMode::Multiply => multiply,
         BlendMode::Screen => screen,
@@ -127,8 +127,8 @@ pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
         BlendMode::Addition => addition,
         BlendMode::Subtract => subtract,
         BlendMode::Divide => divide,
-        m => panic!("unimplemented blend mode: {:?}", m),
-    }
+        BlendMode::Unknown(_) => return None,
+    })
 }
 
 // --- addition ----------------------------------------------------------------
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 303131b..fef2e6c 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -311,7 +311,8 @@ impl AsepriteFile<'_> {
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
-            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
+            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
+                .ok_or(LoadImageError::UnsupportedBlendMode)?;
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -441,6 +442,9 @@ pub enum LoadImageError {
     /// The file uses an unsupported color depth.
     #[error("unsupported color depth")]
     UnsupportedColorDepth,
+    /// The layer uses an unsupported blend mode.
+    #[error("unsupported blend mode")]
+    UnsupportedBlendMode,
     /// Zlib decompression failed.
     #[error("decompression failed")]
     DecompressError,
-- 
2.43.0


From 4a81be27069597dd2d17eed1b772e4210f36f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:18 +0000
Subject: [PATCH 06/16] fix: reject compressed image data shorter than the
 image

The remaining pixels were silently left as they were in the target.
---
 src/loader/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index fef2e6c..411a7f6 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -458,8 +458,12 @@ pub enum LoadImageError {
 /// The expected output size depends on color depth and dimensions.
 pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), LoadImageError> {
     let mut decompressor = Decompress::new(true);
+    let target_size = target.len() as u64;
     match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
         Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
+        Ok(flate2::Status::StreamEnd) if decompressor.total_out() != target_size => {
+            Err(LoadImageError::InvalidImageData)
+        }
         Ok(flate2::Status::StreamEnd) => Ok(()),
         Err(_) => Err(LoadImageError::DecompressError),
     }
-- 
2.43.0


From 6b3a9b5d23e9870b4e9c92aec991d25c45509a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 07/16] fix: map cels to the right entry of the filtered layer
 list

Layers of unsupported type are left out of AsepriteFile::layers, but the
layer index of cels still counted them, so cels above such a layer were
drawn with the attributes of another layer or not at all.
---
 src/loader/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 411a7f6..800cee9 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -149,6 +149,16 @@ impl AsepriteFile<'_> {
             })
             .collect();
 
+        // Map layer indices of the file to indices into `layers`.
+        let mut layer_map: Vec<Option<usize>> = Vec::with_capacity(file.layers.len());
+        let mut layer_count = 0;
+        for layer in file.layers.iter() {
+            let exposed =
+                layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group;
+            layer_map.push(exposed.then_some(layer_count));
+            layer_count += usize::from(exposed);
+        }
+
         let mut image_vec: Vec<Image<'_>> = Vec::new();
         let mut image_map: HashMap<(usize, usize), usize> = HashMap::new();
 
@@ -197,12 +207,15 @@ impl AsepriteFile<'_> {
                         })
                     }
                 };
+                let Some(layer_index) = layer_map[usize::from(cel.layer_index)] else {
+                    continue;
+                };
                 let width = image_vec[image_index].width;
                 let height = image_vec[image_index].height;
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
-                    layer_index: cel.layer_index.into(),
+                    layer_index,
                     image_index,
                 });
             }
-- 
2.43.0


From 6e668e3637de55df31b4da974ea74f90cef14a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:51 +0000
Subject: [PATCH 08/16] fix: normalize color channels for the HSL blend modes

The HSL blend functions expect channels in the range 0.0..=1.0, as in
Aseprite, and panicked or returned garbage for channels up to 255.0.
---
 src/loader/blend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index f368b1a..446415d 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -26,16 +26,16 @@ impl Color {
         self.a.into()
     }
     fn r_f64(&self) -> f64 {
-        self.r.into()
+        f64::from(self.r) / 255.0
     }
     fn g_f64(&self) -> f64 {
-        self.g.into()
+        f64::from(self.g) / 255.0
     }
     fn b_f64(&self) -> f64 {
-        self.b.into()
+        f64::from(self.b) / 255.0
     }
     fn a_f64(&self) -> f64 {
-        self.a.into()
+        f64::from(self.a) / 255.0
     }
 }
 
-- 
2.43.0


From 32d73a77db352c0d8812e17a8c7df0b45e5c38e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 09/16] fix: blend the blue channel of the front color in soft
 light mode

---
 src/loader/blend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index 446415d..1ca7109 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -269,7 +269,7 @@ fn soft_light(back: Color, front: Color, opacity: u8) -> Color {
 fn soft_light_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let r = blend_soft_light(back.r_i32(), front.r_i32());
     let g = blend_soft_light(back.g_i32(), front.g_i32());
-    let b = blend_soft_light(back.b_i32(), back.b_i32());
+    let b = blend_soft_light(back.b_i32(), front.b_i32());
 
     normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
 }
-- 
2.43.0


From 782c37e8c8acaa9063948686fa6e36df93bde71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:53 +0000
Subject: [PATCH 10/16] fix: correct the values of the layer flags 16, 32 and
 64

The decimal values of the specification were written as hexadecimal.
---
 src/binary/chunks/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/layer.rs b/src/binary/chunks/layer.rs
index 1847950..653e7a0 100644
--- a/src/binary/chunks/layer.rs
+++ b/src/binary/chunks/layer.rs
@@ -28,9 +28,9 @@ bitflags! {
         const EDITABLE = 0x2;
         const LOCK_MOVEMENT = 0x4;
         const BACKGROUND = 0x8;
-        const PREFER_LINKED_CELS = 0x16;
-        const COLLAPSED = 0x32;
-        const REFERENCE = 0x64;
+        const PREFER_LINKED_CELS = 0x10;
+        const COLLAPSED = 0x20;
+        const REFERENCE = 0x40;
     }
 }
 
-- 
2.43.0


From b842a67d4f2c736e9d2e02b16352baa013189dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:54 +0000
Subject: [PATCH 11/16] fix: read the x flip mask of tilemap cels before the y
 flip mask

---
 src/binary/chunks/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index a30fa85..c9ef057 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -117,8 +117,8 @@ pub fn parse_cel_chunk(input: &[u8]) -> ParseResult<'_, CelChunk<'_>> {
             let (input, height) = word(input)?;
             let (input, bits_per_tile) = word(input)?;
             let (input, bitmask_tile_id) = dword(input)?;
-            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_x_flip) = dword(input)?;
+            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_diagonal_flip) = dword(input)?;
             let (input, _) = take(10usize)(input)?;
             CelContent::CompressedTilemap {
-- 
2.43.0


From 60d0d0d1794a12cc7039cb1c3805451f9d53c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 12/16] fix: read as many palette entries as the palette chunk
 stores

The size of the whole palette was used as the number of entries, so
chunks changing a part of the palette were rejected.
---
 src/binary/chunks/palette.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index afcf108..c2d8b16 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -30,7 +30,7 @@ bitflags! {
 }
 
 pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
-    let (input, palette_size) = parse_dword_as_usize(input)?;
+    let (input, _palette_size) = parse_dword_as_usize(input)?;
     let (input, first_color_index) = parse_dword_as_u8(
         input,
         ParseError::PaletteError(PaletteError::FirstColorIndexOutOfBounds),
@@ -45,7 +45,10 @@ pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
         )));
     }
     let (input, _) = take(8usize)(input)?;
-    let (input, entries) = count(parse_palette_entry, palette_size).parse(input)?;
+    // The palette size is the total size of the new palette, only the
+    // entries from the first to the last color index are stored.
+    let entry_count = usize::from(last_color_index - first_color_index) + 1;
+    let (input, entries) = count(parse_palette_entry, entry_count).parse(input)?;
     Ok((
         input,
         PaletteChunk {
-- 
2.43.0


From 4df388dc287a9580b6316cffd86032412f44d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 13/16] fix: scale the 6-bit colors of 0x0011 palette chunks to
 8 bits

---
 src/binary/palette.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/binary/palette.rs b/src/binary/palette.rs
index 1fe09d0..f1bffcb 100644
--- a/src/binary/palette.rs
+++ b/src/binary/palette.rs
@@ -52,7 +52,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0004_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0004_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0004_chunks,
+            |value| value,
+            &mut palette,
+        )?;
         return Ok(palette);
     }
     let palette0011_chunks: Vec<_> = frames
@@ -68,7 +73,13 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0011_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0011_chunks, &mut palette)?;
+        // Colors of this chunk type range from 0 to 63.
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0011_chunks,
+            scale_6bit,
+            &mut palette,
+        )?;
         return Ok(palette);
     }
     Err(PaletteError::Missing)
@@ -97,9 +108,15 @@ fn process_palette_chunks(
     }
 }
 
+fn scale_6bit(value: u8) -> u8 {
+    let value = value.min(63);
+    (value << 2) | (value >> 4)
+}
+
 fn process_old_palette_chunks(
     transparent_index: u8,
     chunks: &[&OldPaletteChunk],
+    scale: fn(u8) -> u8,
     palette: &mut Palette,
 ) -> Result<(), PaletteError> {
     let mut ok = false;
@@ -112,9 +129,9 @@ fn process_old_palette_chunks(
             }
             for color in &packet.colors {
                 palette.colors[color_idx] = Color {
-                    red: color.red,
-                    green: color.green,
-                    blue: color.blue,
+                    red: scale(color.red),
+                    green: scale(color.green),
+                    blue: scale(color.blue),
                     alpha: 255,
                 };
                 color_idx += 1;
-- 
2.43.0


From bef391da6745b3f87a025c4dab30a3187fe9a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:12 +0000
Subject: [PATCH 14/16] fix: preserve the first unknown code of enumerations

from_repr() maps the discriminant of the Unknown variant itself to
Unknown(0), so e.g. blend mode 19 was reported as Unknown(0).
---
 src/binary/blend_mode.rs            | 4 +++-
 src/binary/chunks/cel.rs            | 4 +++-
 src/binary/chunks/color_profile.rs  | 1 +
 src/binary/chunks/external_files.rs | 4 +++-
 src/binary/chunks/tags.rs           | 4 +++-
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/binary/blend_mode.rs b/src/binary/blend_mode.rs
index 99dcd07..57b42b3 100644
--- a/src/binary/blend_mode.rs
+++ b/src/binary/blend_mode.rs
@@ -31,7 +31,9 @@ pub enum BlendMode {
 
 impl From<Word> for BlendMode {
     fn from(word: Word) -> Self {
-        BlendMode::from_repr(word.into()).unwrap_or(BlendMode::Unknown(word))
+        BlendMode::from_repr(word.into())
+            .filter(|mode| !matches!(mode, BlendMode::Unknown(_)))
+            .unwrap_or(BlendMode::Unknown(word))
     }
 }
 
diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index c9ef057..2d9aa29 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -42,7 +42,9 @@ enum CelType {
 
 impl From<Word> for CelType {
     fn from(word: Word) -> Self {
-        CelType::from_repr(word.into()).unwrap_or(Self::Unknown(word))
+        CelType::from_repr(word.into())
+            .filter(|cel_type| !matches!(cel_type, Self::Unknown(_)))
+            .unwrap_or(Self::Unknown(word))
     }
 }
 
diff --git a/src/binary/chunks/color_profile.rs b/src/binary/chunks/color_profile.rs
index 2b9a737..18d81b9 100644
--- a/src/binary/chunks/color_profile.rs
+++ b/src/binary/chunks/color_profile.rs
@@ -42,6 +42,7 @@ pub enum ColorProfile<'a> {
 pub fn parse_color_profile(input: &[u8]) -> ParseResult<'_, ColorProfileChunk<'_>> {
     let (input, profile_type) = word(input)?;
     let profile_type = ColorProfileType::from_repr(profile_type.into())
+        .filter(|profile_type| !matches!(profile_type, ColorProfileType::Unknown(_)))
         .unwrap_or(ColorProfileType::Unknown(profile_type));
     let (input, flags) = word(input)?;
     let flags = ColorProfileFlags::from_bits_truncate(flags);
diff --git a/src/binary/chunks/external_files.rs b/src/binary/chunks/external_files.rs
index c1e9dc6..5b86bd7 100644
--- a/src/binary/chunks/external_files.rs
+++ b/src/binary/chunks/external_files.rs
@@ -34,7 +34,9 @@ pub enum ExternalFileType {
 
 impl From<Byte> for ExternalFileType {
     fn from(byte: Byte) -> Self {
-        Self::from_repr(byte).unwrap_or(Self::Unknown(byte))
+        Self::from_repr(byte)
+            .filter(|file_type| !matches!(file_type, Self::Unknown(_)))
+            .unwrap_or(Self::Unknown(byte))
     }
 }
 
diff --git a/src/binary/chunks/tags.rs b/src/binary/chunks/tags.rs
index a9dfbd1..3caa315 100644
--- a/src/binary/chunks/tags.rs
+++ b/src/binary/chunks/tags.rs
@@ -38,7 +38,9 @@ pub enum AnimationDirection {
 
 impl From<Byte> for AnimationDirection {
     fn from(byte: Byte) -> Self {
-        AnimationDirection::from_repr(byte.into()).unwrap_or(AnimationDirection::Unknown(byte))
+        AnimationDirection::from_repr(byte.into())
+            .filter(|direction| !matches!(direction, AnimationDirection::Unknown(_)))
+            .unwrap_or(AnimationDirection::Unknown(byte))
     }
 }
 
-- 
2.43.0


From 563846f991f3bdf0d89de614c256c0648ce89bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:50 +0000
Subject: [PATCH 15/16] fix: read nested properties maps without a key

Only the properties maps of the chunk are preceded by their key, a
properties map stored as the value of a property is not.
---
 src/binary/chunks/user_data.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 777785d..4ba1d63 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -163,8 +163,7 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    let (input, properties) = parse_properties(input)?;
     Ok((
         input,
         PropertiesMap {
@@ -174,6 +173,24 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
     ))
 }
 
+/// Parse a properties map that is the value of a property. Unlike the
+/// properties maps of the chunk it is stored without a key.
+fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, properties) = parse_properties(input)?;
+    Ok((
+        input,
+        PropertiesMap {
+            extension_entry_id: 0,
+            properties,
+        },
+    ))
+}
+
+fn parse_properties(input: &[u8]) -> ParseResult<'_, Vec<Property<'_>>> {
+    let (input, num_props) = parse_dword_as_usize(input)?;
+    count(parse_property, num_props).parse(input)
+}
+
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
     let (input, value) = parse_value(input)?;
@@ -204,7 +221,7 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
         PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
         PropertyType::PropertiesMap => {
-            map(parse_properties_map, Value::PropertiesMap).parse(input)?
+            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
         }
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
@@ -244,7 +261,7 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
             map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
         }
         PropertyType::PropertiesMap => map(
-            count(parse_properties_map, len_elements),
+            count(parse_nested_properties_map, len_elements),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From 69fad8e09e4c4080bba179aa01dde76996d985b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:04 +0000
Subject: [PATCH 16/16] fix: limit the nesting depth of property values

Vectors and properties maps were parsed with unbounded recursion, so a
file of a few hundred kilobytes could overflow the stack.
---
 src/binary/chunks/user_data.rs | 71 +++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 13 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 4ba1d63..2f37f70 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -163,7 +163,7 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, properties) = parse_properties(input)?;
+    let (input, properties) = parse_properties(input, 0)?;
     Ok((
         input,
         PropertiesMap {
@@ -175,8 +175,8 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
 
 /// Parse a properties map that is the value of a property. Unlike the
 /// properties maps of the chunk it is stored without a key.
-fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
-    let (input, properties) = parse_properties(input)?;
+fn parse_nested_properties_map(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, properties) = parse_properties(input, depth)?;
     Ok((
         input,
         PropertiesMap {
@@ -186,18 +186,42 @@ fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_
     ))
 }
 
-fn parse_properties(input: &[u8]) -> ParseResult<'_, Vec<Property<'_>>> {
+fn parse_properties(input: &[u8], depth: usize) -> ParseResult<'_, Vec<Property<'_>>> {
     let (input, num_props) = parse_dword_as_usize(input)?;
-    count(parse_property, num_props).parse(input)
+    count(|input| parse_property_at(input, depth), num_props).parse(input)
 }
 
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
+    parse_property_at(input, 0)
+}
+
+fn parse_property_at(input: &[u8], depth: usize) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
-    let (input, value) = parse_value(input)?;
+    let (input, value) = parse_value_at(input, depth)?;
     Ok((input, Property { name, value }))
 }
 
+/// Vectors and properties maps nested deeper than this are rejected, as
+/// parsing and dropping them recursively could exhaust the stack.
+const MAX_DEPTH: usize = 64;
+
+/// Get the depth of the values nested in a value at the given depth.
+fn nested_depth(input: &[u8], depth: usize) -> Result<usize, nom::Err<ParseError<'_>>> {
+    if depth < MAX_DEPTH {
+        Ok(depth + 1)
+    } else {
+        Err(nom::Err::Failure(ParseError::from_error_kind(
+            input,
+            ErrorKind::TooLarge,
+        )))
+    }
+}
+
 pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
+    parse_value_at(input, 0)
+}
+
+fn parse_value_at(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
     let (input, prop_type) = word(input)?;
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -219,19 +243,35 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Point => map(parse_point, Value::Point).parse(input)?,
         PropertyType::Size => map(parse_size, Value::Size).parse(input)?,
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
-        PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
+        PropertyType::Vector => {
+            map(|input| parse_vector_at(input, depth), Value::Vector).parse(input)?
+        }
         PropertyType::PropertiesMap => {
-            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
+            let depth = nested_depth(input, depth)?;
+            map(
+                move |input| parse_nested_properties_map(input, depth),
+                Value::PropertiesMap,
+            )
+            .parse(input)?
         }
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
 }
 
 pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
+    parse_vector_at(input, 0)
+}
+
+fn parse_vector_at(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
+    let depth = nested_depth(input, depth)?;
     let (input, len_elements) = parse_dword_as_usize(input)?;
     let (input, prop_type) = word(input)?;
     if prop_type == 0 {
-        return map(count(parse_value, len_elements), Vector::Mixed).parse(input);
+        return map(
+            count(|input| parse_value_at(input, depth), len_elements),
+            Vector::Mixed,
+        )
+        .parse(input);
     }
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -257,11 +297,16 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
         PropertyType::Point => map(count(parse_point, len_elements), Vector::Point).parse(input)?,
         PropertyType::Size => map(count(parse_size, len_elements), Vector::Size).parse(input)?,
         PropertyType::Rect => map(count(parse_rect, len_elements), Vector::Rect).parse(input)?,
-        PropertyType::Vector => {
-            map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
-        }
+        PropertyType::Vector => map(
+            count(|input| parse_vector_at(input, depth), len_elements),
+            Vector::Vector,
+        )
+        .parse(input)?,
         PropertyType::PropertiesMap => map(
-            count(parse_nested_properties_map, len_elements),
+            count(
+                |input| parse_nested_properties_map(input, depth),
+                len_elements,
+            ),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0

