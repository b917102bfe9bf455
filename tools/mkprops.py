#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech],
        observe_at=observe, hook_needed=None)))
B='src/binary/'; L='src/loader/mod.rs'; BL='src/loader/blend.rs'
p('C01','Loading never panics, aborts or hangs',
 'For every byte sequence, parsing (raw, file and chunk level) and loading return either a value or an error: they never panic, abort, overflow the stack or fail to terminate. This includes truncated, corrupted and adversarial input: out-of-range layer indices, size fields below their minimum, huge declared counts and deeply nested property values.',
 ['inputs','fault_sequences'],'every byte sequence, in particular every truncation and every single/multi field corruption of well-formed files',
 'Tests only load eight well-formed fixtures; no malformed input is ever fed to the parser.',
 [B+'file.rs',B+'raw_frame.rs',B+'chunk.rs',B+'chunks/user_data.rs',B+'scalars.rs',L],
 [('reader position','bytes consumed of the current frame/chunk',B+'raw_frame.rs')],
 [('dword_size minimum check',B+'scalars.rs'),('layer index bounds check',B+'file.rs'),('properties map size check',B+'chunks/user_data.rs')],
 ['binary::raw_file::parse_raw_file','binary::file::parse_file','binary::chunk::parse_chunk','loader::AsepriteFile::load'])
p('C02','Decoding and rendering never panic',
 'For every successfully loaded file, every valid image or frame index, every target buffer and every layer selection, decoding an image and rendering a frame return success or an error and never panic. Corrupt, short or oversized pixel data, undecodable compressed streams, unknown blend modes and unsupported color depths of a drawn cel are reported as errors.',
 ['inputs','fault_sequences'],'every loadable file incl. corrupt pixel data, every buffer length and content, every selection, every blend mode and opacity',
 'The tests decode only intact fixture images through correctly sized zeroed buffers.',
 [L,BL],[('target buffer','caller supplied RGBA8 buffer',L)],
 [('error propagation in render_frame',L),('length checks of the pixel converters',L),('blend mode dispatch',BL)],
 ['AsepriteFile::load_image','AsepriteFile::render_frame','AsepriteFile::combined_frame_image','loader::decompress'])
p('C03','Container framing is followed exactly',
 'Parsing accepts exactly the inputs made of a valid 128-byte header followed by one or more complete frames that fill the rest of the input, each frame and each chunk being delimited by its own size field and each frame holding at least as many chunks as it declares. Header fields, the frame order, frame durations and the chunk sequence of each frame (taken from the extended chunk count when that is non-zero, the short one otherwise) are reported as stored; every truncation inside a frame, wrong magic number, size below its minimum, size past the end or leftover partial frame is an error.',
 ['inputs'],'every input: all header values, frame counts, chunk counts in both encodings, size field values and truncation points',
 'Fixtures have one to a few frames, use only one chunk-count encoding and are never truncated.',
 [B+'header.rs',B+'raw_file.rs',B+'raw_frame.rs',B+'chunk.rs',B+'scalars.rs'],
 [('frames','frames read so far',B+'raw_frame.rs')],
 [('size-delimited take',B+'raw_frame.rs'),('all_consuming(many1)',B+'raw_frame.rs'),('chunk count selection',B+'raw_frame.rs')],
 ['parse_raw_file','parse_header'])
p('C04','Every chunk field is decoded as the file format specifies',
 'For each chunk type, each reported field equals the little-endian value stored at the position the Aseprite file format assigns to it, optional parts are present exactly when their flag says so, repeated parts are reported completely and in order, known enumeration codes and flag bits map to their named meaning, and unknown codes are preserved as the stored number. Borrowed strings and data are exactly the designated sub-ranges of the input (zero copy), strings must be valid UTF-8, and a chunk too short for its declared content is an error.',
 ['inputs'],'every chunk type, every field value incl. extremes and unknown codes, every flag combination, every truncation',
 'Tests compare a handful of names, durations and palette entries of fixtures; most chunk types, flags and fields are never inspected.',
 [B+'chunks/'+x+'.rs' for x in ('cel','cel_extra','color_profile','external_files','layer','mask','old_palette','palette','slice','tags','tileset')]+[B+'blend_mode.rs',B+'color_depth.rs',B+'chunk_type.rs',B+'scalars.rs'],
 [],[('per-chunk field parsers',B+'chunks/'),('scalar readers',B+'scalars.rs')],['binary::chunk::parse_chunk','parse_raw_file'])
p('C05','User data text, color and typed properties decode faithfully',
 'User data text and color are present exactly when flagged, and every custom property of every type (booleans, integers of all widths, fixed, floats, strings, points, sizes, rects, homogeneous and mixed vectors, nested maps, UUIDs), at top level or nested, is reported with its name, type and exact stored value, grouped in properties maps under their keys. Nesting is supported at least 64 levels deep. Malformed properties (unknown type codes, content past the declared size) are reported as an error of the properties value without affecting the rest of the file.',
 ['inputs'],'every nesting of property types and values, every flag combination',
 'The only fixture with user data carries plain text; properties are never decoded by a test.',
 [B+'chunks/user_data.rs',B+'scalars.rs'],[],[('parse_value / parse_vector / parse_properties_map',B+'chunks/user_data.rs')],['parse_chunk','File.*.user_data'])
p('C06','Layers, cels, tags and slices are assembled in file order',
 'The parsed file lists layers, tags and slices in the order their chunks appear across all frames, and frames in order with their durations. Each frame has one slot per layer of the file; a cel appears in the slot of its layer (the last one if several name the same layer), all other slots are empty, and a cel naming a layer that does not exist makes parsing fail.',
 ['inputs','histories'],'every sequence of chunks over any number of frames, with layers declared anywhere',
 'Fixtures have at most a few layers, in the first frame only, and no bad or duplicate layer index.',
 [B+'file.rs',B+'frame.rs'],[('layers/tags/slices/frames','accumulated document',B+'file.rs')],
 [('chunk dispatch loop',B+'file.rs'),('cel slot placement',B+'file.rs')],['binary::file::parse_file'])
p('C07','User data is attached to the element it follows',
 'A user data chunk is attached to exactly the element it belongs to: the layer, cel or slice immediately preceding it, the n-th tag for the n-th consecutive user data chunk after a tags chunk, and the sprite when it immediately follows a palette chunk of the first frame (the first such one wins). No user data is ever attached to anything else or to two elements; elements not followed by user data have none.',
 ['inputs','histories'],'every sequence of chunks and user data chunks, over any number of frames',
 'One fixture exercises one ordering with one user data chunk per element.',
 [B+'file.rs'],[('pending owner','element(s) the next user data chunk belongs to',B+'file.rs')],
 [('next_user_data lookahead',B+'file.rs')],['parse_file: File.user_data, layers/cels/tags/slices .user_data'])
p('C08','The palette of an indexed file is resolved exactly',
 'For indexed files the palette is built from all new-style palette chunks if there are any, else from the 0x0004 chunks, else from the 0x0011 chunks (whose 6-bit components are scaled to 8 bits): chunks apply in file order, each changing exactly the entries it names, later ones overriding earlier ones. Unnamed entries stay transparent black, the transparent index always has alpha 0, old-style colors are opaque, and an indexed file with no palette, an empty one or one addressing entries beyond 255 is rejected; other color depths have no palette.',
 ['inputs','histories'],'every combination and order of palette chunks of the three kinds over several frames, all ranges, skips and transparent indices',
 'One indexed fixture with one full palette; three entries are compared.',
 [B+'palette.rs',B+'chunks/palette.rs',B+'chunks/old_palette.rs',B+'file.rs'],[('palette.colors','256 entries under construction',B+'palette.rs')],
 [('create_palette precedence',B+'palette.rs'),('packet skip arithmetic',B+'palette.rs')],['parse_file: File.palette'])
p('C09','The high-level view refers to the right layers and images',
 'The loaded file exposes all normal and group layers in order, tags with their range, direction and repeat count (absent when 0), slices as parsed, frames with their durations, and one image per stored image cel. Every frame cel carries the position stored in its own chunk, refers to the entry of the exposed layer list that is its own layer and to the image it stores or, for a linked cel, to the image stored by the same layer in the linked frame, together with that image\'s size; cels of layers that are not exposed are left out, and a link to anything but a stored image, or an unsupported cel kind, makes loading fail.',
 ['inputs'],'every document: any number of layers of any type, any cels and links (forward, backward, chained, missing)',
 'Tests only check that fixtures load; no test compares indices, links, sizes or positions, and no fixture has unsupported layers.',
 [L],[('image_map','(frame, layer) to image index',L)],[('AsepriteFile::load',L)],['AsepriteFile.{layers,frames,tags,images}','size()'])
p('C10','Image decoding yields exactly the stored pixels as RGBA8',
 'Decoding an image writes, for every pixel in row order, its RGBA value: stored bytes for RGBA, value replicated plus alpha for grayscale, the palette entry for indexed, whether the data is raw or zlib-compressed and whatever the size. Success means all width*height*4 bytes were written from stored data and nothing beyond them was touched; a target that is too small is reported as such and left untouched, and pixel data that is corrupt or has more or fewer bytes than the dimensions require is an error.',
 ['inputs'],'every image: depths, raw/compressed, dimensions incl. more than 65535 pixels, buffer sizes and previous contents, corrupt/short/long data',
 'Tests decode only small intact images and never compare pixel values.',
 [L,B+'image.rs',B+'color_depth.rs'],[],[('load_image, decompress, grayscale_to_rgba, indexed_to_rgba',L)],['AsepriteFile::load_image','loader::decompress'])
p('C11','Rendering places and clips cels exactly',
 'Rendering changes exactly the canvas pixels covered by a drawn cel: pixel (x, y) of a cel lands at its position plus (x, y) when that lies on the canvas and is discarded otherwise, for every signed 16-bit position and every cel and canvas size. All other pixels of the buffer, including bytes beyond the canvas, keep their value; the previous content is the backdrop; a buffer too small is reported and left untouched.',
 ['inputs'],'every cel position in i16 x i16, every cel and canvas size, any buffer length and previous content',
 'Tests never look at rendered pixels except blank vs. not blank.',
 [L],[('target','canvas under composition',L)],[('clipping in render_frame',L)],['AsepriteFile::render_frame'])
p('C12','Exactly the selected layers are drawn, bottom to top',
 'A rendered frame is the result of blending, in ascending layer order, each cel of that frame whose layer is selected and not a group, using that layer\'s blend mode and opacity: "visible" selects by the stored visibility flag, "all" selects everything, a mask selects by layer position with missing entries unselected. Unselected layers have no influence at all, even if their data is undecodable; selection helpers mark exactly the layers satisfying the predicate or whose name is listed.',
 ['inputs'],'every layer stack, stored cel order, visibility, group placement, mask of any length and name list',
 'Tests compare only blank/non-blank and one-layer-differs-from-all on one fixture.',
 [L],[('target','canvas under composition',L)],[('LayerSelection::is_selected',L),('cel loop order',L),('select_layers, select_layers_by_name',L)],['render_frame','select_layers','select_layers_by_name'])
p('C13','Channel-wise blend modes match Aseprite for all inputs',
 'For normal, multiply, screen, overlay, darken, lighten, color dodge, color burn, hard light, soft light, difference, exclusion, addition, subtract and divide, the pixel produced from any backdrop, source pixel and layer opacity equals that of Aseprite\'s reference blender, including its integer rounding and its handling of transparent and translucent backdrops and sources.',
 ['inputs'],'all 256x256 channel pairs per mode, all alphas and opacities',
 'blend.rs has no test; rendering tests never compare pixel values.',
 [BL],[],[('blend functions, normal, merge, blender',BL)],['AsepriteFile::render_frame'])
p('C14','Hue, saturation, color and luminosity blending match Aseprite',
 'For the four HSL blend modes, the pixel produced from any backdrop, source pixel and opacity equals that of Aseprite\'s reference blender (set-saturation, set-luminosity and gamut clipping over normalised channels, then the common alpha compositing), up to the rounding of the floating point intermediate.',
 ['inputs'],'all RGB triples of source and backdrop, all alphas and opacities',
 'No fixture uses these modes and blend.rs has no tests.',
 [BL],[],[('hsl_* functions, set_saturation, set_luminocity, clip_color',BL)],['AsepriteFile::render_frame'])
p('C15','Calls are independent of history and fingerprints are faithful',
 'Decoding, rendering, selecting and fingerprinting depend only on the file, the arguments and the buffer passed: any sequence of calls on one loaded file, in any order and repeated, gives each call the result it would give alone, and concurrent calls agree. The combined-frame call renders exactly like rendering visible layers, and its fingerprints are equal for two frames of a file exactly when the frames have the same cels (image, layer, position, size) in the same order.',
 ['histories','inputs','schedules'],'every sequence of API calls on one or several loaded files; every pair of frames',
 'Tests call each operation once per file and ignore the fingerprint.',
 [L],[],[('AsepriteFile methods take &self',L),('combined_frame_image hash',L)],['load_image','render_frame','combined_frame_image'])
p('C16','Unknown and unused content is skipped without influence',
 'Chunks of unknown type, chunk types the library does not use, reserved and deprecated fields, extra bytes at the end of a chunk and extra bytes after the last declared chunk of a frame never change the loaded result: a file with such content loads to the same layers, cels, frames, tags, slices, palette, images and renderings as without it (an unknown chunk only separates a following user data chunk from its owner).',
 ['inputs'],'every position and content of skipped material in every file',
 'Fixtures contain no unknown chunks and are not perturbed.',
 [B+'chunk.rs',B+'raw_frame.rs',B+'file.rs',B+'chunk_type.rs'],[],[('Chunk::Unsupported and size-delimited chunks',B+'chunk.rs')],['parse_file','AsepriteFile::load'])
p('C17','Memory use follows the bytes present, not declared counts',
 'Loading an input never allocates memory in proportion to a count or size that the input merely declares: peak memory stays within a fixed allowance plus a fixed multiple of the input length and of the layer-by-frame table actually present. A few bytes declaring billions of chunks, tags, slice keys, palette entries, properties or vector elements are rejected cheaply.',
 ['inputs'],'every input, in particular small inputs with extreme declared counts and sizes in every count field',
 'No test uses a count that the data does not back.',
 [B+'chunk.rs',B+'raw_frame.rs',B+'chunks/tags.rs',B+'chunks/slice.rs',B+'chunks/palette.rs',B+'chunks/external_files.rs',B+'chunks/user_data.rs'],[],[('counted repetition with capped preallocation',B+'chunks/')],['AsepriteFile::load (allocator instrumented in the harness)'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P),'properties')
