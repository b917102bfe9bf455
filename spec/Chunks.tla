------------------------------ MODULE Chunks -------------------------------
(***************************************************************************)
(* The chunks of an Aseprite file, decoded from their bytes.               *)
(*                                                                         *)
(* Every chunk is described by a layout: a sequence of <<field, kind, n>>. *)
(* Read interprets a layout on the bytes b from position p, never going    *)
(* beyond the end e of the chunk, and yields the machine state             *)
(*   [ok, p, v]: success so far, next position, record of the fields.      *)
(***************************************************************************)
EXTENDS Bytes, TLC

St(p)   == [ok |-> TRUE, p |-> p, v |-> [t |-> ""]]
Fail(s) == [s EXCEPT !.ok = FALSE]
Put(s, n, f, x) == [s EXCEPT !.p = @ + n, !.v = @ @@ (f :> x)]

Width(k, n) == CASE k = "u8" -> 1 [] k = "u16" -> 2 [] k = "i16" -> 2 [] k = "b4" -> 4
                 [] k = "fixed" -> 4 [] k = "bytes" -> n [] k = "skip" -> n
                 [] k = "str" -> 2 [] k = "block" -> 4 [] k = "rest" -> 0

Field(b, e, s, f) ==
  IF ~s.ok THEN s
  ELSE LET p == s.p
           k == f[2]
           w == Width(k, f[3])
       IN IF p + w > e THEN Fail(s)
          ELSE CASE k = "u8"    -> Put(s, 1, f[1], U8(b, p))
                 [] k = "u16"   -> Put(s, 2, f[1], U16(b, p))
                 [] k = "i16"   -> Put(s, 2, f[1], I16(b, p))
                 [] k = "b4"    -> Put(s, 4, f[1], B4(b, p))
                 [] k = "fixed" -> Put(s, 4, f[1], <<U16(b, p + 2), U16(b, p)>>)
                 [] k = "bytes" -> Put(s, w, f[1], BN(b, p, w))
                 [] k = "skip"  -> [s EXCEPT !.p = p + w]
                 [] k = "rest"  -> Put(s, e - p, f[1], Range2(p, e - p))
                 [] k = "str"   -> LET n == U16(b, p)
                                   IN IF p + 2 + n > e \/ ~Utf8Ok(BN(b, p + 2, n)) THEN Fail(s)
                                      ELSE Put(s, 2 + n, f[1], Range2(p + 2, n))
                 [] k = "block" -> LET n == U32(b, p)
                                   IN IF n > e - p - 4 THEN Fail(s)
                                      ELSE Put(s, 4 + n, f[1], Range2(p + 4, n))

Read(b, e, s, layout) == FoldLeft(LAMBDA a, f : Field(b, e, a, f), s, layout)
\* An optional part: reported as <<value>> or <<>>.
Opt(b, e, s, present, f) ==
  IF ~s.ok THEN s
  ELSE IF ~present THEN Put(s, 0, f[1], <<>>)
  ELSE LET r == Field(b, e, [s EXCEPT !.v = [t |-> ""]], f)
       IN IF r.ok THEN Put([s EXCEPT !.p = r.p], 0, f[1], <<r.v[f[1]]>>) ELSE Fail(s)

\* n repetitions of an item; One(p) reads one item at p.  Every item has at
\* least one byte, so a count beyond the bytes left cannot be satisfied.
Rep(One(_), e, s, n, f) ==
  IF ~s.ok \/ n > e - s.p THEN Fail(s)
  ELSE LET step(a, i) == IF ~a.ok THEN a
                         ELSE LET r == One(a.p)
                              IN IF r.ok THEN [ok |-> TRUE, p |-> r.p, v |-> Append(a.v, r.v)]
                                 ELSE [a EXCEPT !.ok = FALSE]
           r == FoldLeft(step, [ok |-> TRUE, p |-> s.p, v |-> <<>>], [i \in 1..n |-> i])
       IN IF r.ok THEN Put([s EXCEPT !.p = r.p], 0, f, r.v) ELSE Fail(s)

Item(p) == [ok |-> TRUE, p |-> p, v |-> <<>>]
\* drop the working tag of a record of fields
Done(s, x) == [ok |-> s.ok, p |-> s.p, v |-> x]

----------------------------------------------------------------------------
\* Named codes.  A code without a name is reported as <<"Unknown", code>>.

Named(names, n) == IF n < Len(names) THEN <<names[n + 1], 0>> ELSE <<"Unknown", n>>

BlendNames == <<"Normal", "Multiply", "Screen", "Overlay", "Darken", "Lighten",
   "ColorDodge", "ColorBurn", "HardLight", "SoftLight", "Difference", "Exclusion",
   "Hue", "Saturation", "Color", "Luminosity", "Addition", "Subtract", "Divide">>
LayerTypes == <<"Normal", "Group", "Tilemap">>
Directions == <<"Forward", "Reverse", "PingPong", "PingPongReverse">>
ProfileTypes == <<"None", "Srgb", "Icc">>
FileTypes == <<"Palette", "Tileset", "Extension">>

Depth(n) == CASE n = 32 -> <<"Rgba", 32>> [] n = 16 -> <<"Grayscale", 16>>
              [] n = 8 -> <<"Indexed", 8>> [] OTHER -> <<"Unknown", n>>

----------------------------------------------------------------------------
Layer(b, p, e) ==
  LET s1 == Read(b, e, St(p), << <<"fl", "u16", 0>>, <<"lt", "u16", 0>>, <<"child", "u16", 0>>,
                <<"_", "skip", 4>>, <<"bm", "u16", 0>>, <<"op", "u8", 0>>, <<"_", "skip", 3>>,
                <<"name", "str", 0>> >>)
      s  == IF s1.ok THEN Opt(b, e, s1, s1.v.lt = 2, <<"tsi", "b4", 0>>) ELSE s1
      v  == s.v
      fl(k) == Bit(v.fl, k)
      lt == Named(LayerTypes, v.lt)
      bm == Named(BlendNames, v.bm)
  IN Done(s, IF ~s.ok THEN <<>> ELSE
     [t |-> "Layer", vis |-> fl(0), edit |-> fl(1), lock |-> fl(2), bg |-> fl(3), plc |-> fl(4),
      coll |-> fl(5), ref |-> fl(6), lk |-> lt[1], lv |-> lt[2], child |-> v.child,
      bk |-> bm[1], bv |-> bm[2], op |-> v.op, name |-> v.name, tsi |-> v.tsi, ud |-> <<>>])

Zero4 == <<0, 0, 0, 0>>
CelBase == [t |-> "Cel", ck |-> "Image", w |-> 0, h |-> 0, comp |-> 0, data |-> <<0, 0>>, fp |-> 0,
            bpt |-> 0, mid |-> Zero4, mx |-> Zero4, my |-> Zero4, md |-> Zero4, ct |-> 0, ud |-> <<>>]
Cel(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"li", "u16", 0>>, <<"x", "i16", 0>>, <<"y", "i16", 0>>,
                <<"op", "u8", 0>>, <<"ty", "u16", 0>>, <<"z", "i16", 0>>, <<"_", "skip", 5>> >>)
      ty == s0.v.ty
      s  == IF ~s0.ok THEN s0 ELSE Read(b, e, s0,
             CASE ty \in {0, 2} -> << <<"w", "u16", 0>>, <<"h", "u16", 0>>, <<"data", "rest", 0>> >>
               [] ty = 1 -> << <<"fp", "u16", 0>> >>
               [] ty = 3 -> << <<"w", "u16", 0>>, <<"h", "u16", 0>>, <<"bpt", "u16", 0>>,
                               <<"mid", "b4", 0>>, <<"mx", "b4", 0>>, <<"my", "b4", 0>>,
                               <<"md", "b4", 0>>, <<"_", "skip", 10>>, <<"data", "rest", 0>> >>
               [] OTHER -> << <<"data", "rest", 0>> >>)
      v  == s.v
      head == [li |-> v.li, x |-> v.x, y |-> v.y, op |-> v.op, z |-> v.z]
      body == CASE ty \in {0, 2} -> [ck |-> "Image", w |-> v.w, h |-> v.h, data |-> v.data,
                                     comp |-> IF ty = 2 THEN 1 ELSE 0]
                [] ty = 1 -> [ck |-> "Linked", fp |-> v.fp]
                [] ty = 3 -> [ck |-> "Tilemap", w |-> v.w, h |-> v.h, bpt |-> v.bpt, mid |-> v.mid,
                              mx |-> v.mx, my |-> v.my, md |-> v.md, data |-> v.data]
                [] OTHER -> [ck |-> "Unknown", ct |-> ty, data |-> v.data]
  IN Done(s, IF ~s.ok THEN <<>> ELSE head @@ body @@ CelBase)

CelExtra(b, p, e) ==
  LET s == Read(b, e, St(p), << <<"fl", "b4", 0>>, <<"x", "fixed", 0>>, <<"y", "fixed", 0>>,
               <<"w", "fixed", 0>>, <<"h", "fixed", 0>>, <<"fut", "rest", 0>> >>)
      v == s.v
  IN Done(s, IF ~s.ok THEN <<>> ELSE
     [t |-> "CelExtra", precise |-> v.fl[1] % 2, x |-> v.x, y |-> v.y, w |-> v.w, h |-> v.h,
      fut |-> v.fut])

ColorProfile(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"ty", "u16", 0>>, <<"fl", "u16", 0>>, <<"g", "fixed", 0>>,
                <<"_", "skip", 8>> >>)
      s  == IF s0.ok THEN Opt(b, e, s0, s0.v.ty = 2, <<"icc", "block", 0>>) ELSE s0
      v  == s.v
      pk == Named(ProfileTypes, v.ty)
  IN Done(s, IF ~s.ok THEN <<>> ELSE
     [t |-> "ColorProfile", gamma |-> IF v.fl % 2 = 1 THEN <<v.g>> ELSE <<>>,
      pk |-> pk[1], pv |-> pk[2], icc |-> v.icc])

ExternalFile(b, p, e) ==
  LET s  == Read(b, e, St(p), << <<"id", "b4", 0>>, <<"ty", "u8", 0>>, <<"_", "skip", 7>>,
                <<"name", "str", 0>> >>)
      fk == Named(FileTypes, s.v.ty)
  IN Done(s, IF ~s.ok THEN <<>> ELSE
     [id |-> s.v.id, fk |-> fk[1], fv |-> fk[2], name |-> s.v.name])
ExternalFiles(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"n", "b4", 0>>, <<"_", "skip", 8>> >>)
      s  == IF s0.ok THEN Rep(LAMBDA q : ExternalFile(b, q, e), e, s0, SatVal(s0.v.n), "files") ELSE s0
  IN Done(s, IF ~s.ok THEN <<>> ELSE [t |-> "ExternalFiles", files |-> s.v.files])

Mask(b, p, e) ==
  LET s == Read(b, e, St(p), << <<"x", "i16", 0>>, <<"y", "i16", 0>>, <<"w", "u16", 0>>,
               <<"h", "u16", 0>>, <<"_", "skip", 8>>, <<"name", "str", 0>>, <<"data", "rest", 0>> >>)
      v == s.v
  IN Done(s, IF ~s.ok THEN <<>> ELSE
     [t |-> "Mask", x |-> v.x, y |-> v.y, w |-> v.w, h |-> v.h, name |-> v.name, data |-> v.data])

Tag(b, p, e) ==
  LET s == Read(b, e, St(p), << <<"from", "u16", 0>>, <<"to", "u16", 0>>, <<"d", "u8", 0>>,
               <<"rep", "u16", 0>>, <<"_", "skip", 6>>, <<"col", "bytes", 3>>, <<"_", "skip", 1>>,
               <<"name", "str", 0>> >>)
      v == s.v
      dk == Named(Directions, v.d)
  IN IF ~s.ok \/ v.from > v.to THEN Fail(Item(p))
     ELSE Done(s, [from |-> v.from, to |-> v.to, dk |-> dk[1], dv |-> dk[2], rep |-> v.rep,
                   col |-> v.col, name |-> v.name, ud |-> <<>>])
Tags(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"n", "u16", 0>>, <<"_", "skip", 8>> >>)
      s  == IF s0.ok THEN Rep(LAMBDA q : Tag(b, q, e), e, s0, s0.v.n, "tags") ELSE s0
  IN Done(s, IF ~s.ok THEN <<>> ELSE [t |-> "Tags", tags |-> s.v.tags])

PaletteEntry(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"fl", "u16", 0>>, <<"c", "bytes", 4>> >>)
      s  == IF s0.ok THEN Opt(b, e, s0, s0.v.fl % 2 = 1, <<"name", "str", 0>>) ELSE s0
  IN Done(s, IF ~s.ok THEN <<>> ELSE [c |-> s.v.c, name |-> s.v.name])
\* The entries first..last are stored; the size field is the size of the
\* whole palette, of which they may be a part.
Palette(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"n", "b4", 0>>, <<"a", "b4", 0>>, <<"z", "b4", 0>>, <<"_", "skip", 8>> >>)
      a  == SatVal(s0.v.a)
      z  == SatVal(s0.v.z)
      s  == IF s0.ok THEN Rep(LAMBDA q : PaletteEntry(b, q, e), e, s0, z - a + 1, "entries") ELSE s0
  IN IF ~s0.ok THEN Done(s0, <<>>)
     ELSE IF a > 255 \/ z > 255 \/ a > z THEN Fail(Item(p))
     ELSE Done(s, IF ~s.ok THEN <<>> ELSE
       [t |-> "Palette", first |-> a, last |-> z, entries |-> s.v.entries])

Rgb(b, p, e) == IF p + 3 > e THEN Fail(Item(p)) ELSE [ok |-> TRUE, p |-> p + 3, v |-> BN(b, p, 3)]
Packet(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"skip", "u8", 0>>, <<"n", "u8", 0>> >>)
      n  == IF s0.v.n = 0 THEN 256 ELSE s0.v.n
      s  == IF s0.ok THEN Rep(LAMBDA q : Rgb(b, q, e), e, s0, n, "colors") ELSE s0
  IN Done(s, IF ~s.ok THEN <<>> ELSE [skip |-> s.v.skip, colors |-> s.v.colors])
OldPalette(b, p, e, t) ==
  LET s0 == Read(b, e, St(p), << <<"n", "u16", 0>> >>)
      s  == IF s0.ok THEN Rep(LAMBDA q : Packet(b, q, e), e, s0, s0.v.n, "packets") ELSE s0
  IN Done(s, IF ~s.ok THEN <<>> ELSE [t |-> t, packets |-> s.v.packets])

SliceKey(b, p, e, nine, pivot) ==
  LET s0 == Read(b, e, St(p), << <<"f", "b4", 0>>, <<"x", "b4", 0>>, <<"y", "b4", 0>>,
                <<"w", "b4", 0>>, <<"h", "b4", 0>> >>)
      s1 == Opt(b, e, s0, nine = 1, <<"np", "bytes", 16>>)
      s  == Opt(b, e, s1, pivot = 1, <<"pv", "bytes", 8>>)
      v  == s.v
      quad(x) == [k \in 1..(Len(x) \div 4) |-> BN(x, 4 * (k - 1), 4)]
      quads(x) == IF x = <<>> THEN <<>> ELSE <<quad(x[1])>>
  IN Done(s, IF ~s.ok THEN <<>> ELSE
     [f |-> v.f, x |-> v.x, y |-> v.y, w |-> v.w, h |-> v.h, np |-> quads(v.np), pv |-> quads(v.pv)])
Slice(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"n", "b4", 0>>, <<"fl", "b4", 0>>, <<"_", "skip", 4>>,
                <<"name", "str", 0>> >>)
      nine == s0.v.fl[1] % 2
      pivot == (s0.v.fl[1] \div 2) % 2
      s  == IF s0.ok THEN Rep(LAMBDA q : SliceKey(b, q, e, nine, pivot), e, s0, SatVal(s0.v.n), "keys")
            ELSE s0
  IN Done(s, IF ~s.ok THEN <<>> ELSE
     [t |-> "Slice", name |-> s.v.name, nine |-> nine, pivot |-> pivot, keys |-> s.v.keys, ud |-> <<>>])

Tileset(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"id", "b4", 0>>, <<"fl", "b4", 0>>, <<"n", "b4", 0>>,
                <<"w", "u16", 0>>, <<"h", "u16", 0>>, <<"bi", "i16", 0>>, <<"_", "skip", 14>>,
                <<"name", "str", 0>> >>)
      fl == s0.v.fl[1]
      s1 == IF s0.ok THEN Opt(b, e, s0, Bit(fl, 0) = 1, <<"ext", "bytes", 8>>) ELSE s0
      s  == IF s0.ok THEN Opt(b, e, s1, Bit(fl, 1) = 1, <<"tiles", "block", 0>>) ELSE s0
      v  == s.v
  IN Done(s, IF ~s.ok THEN <<>> ELSE
     [t |-> "Tileset", id |-> v.id, fl |-> [k \in 1..6 |-> Bit(fl, k - 1)], n |-> v.n, w |-> v.w,
      h |-> v.h, bi |-> v.bi, name |-> v.name,
      ext |-> IF v.ext = <<>> THEN <<>> ELSE << <<BN(v.ext[1], 0, 4), BN(v.ext[1], 4, 4)>> >>,
      tiles |-> v.tiles])

----------------------------------------------------------------------------
\* User data and its properties.  Values are trees: a node has a type t, a
\* payload b (stored bytes, string range, element type or map key), names n
\* and subtrees s.  m is the number of nested containers of the deepest path.

ScalarTypes == <<"Bool", "Int8", "Uint8", "Int16", "Uint16", "Int32", "Uint32", "Int64", "Uint64",
                 "Fixed", "Float", "Double", "String", "Point", "Size", "Rect", "Vector", "Map", "Uuid">>
ScalarSize == <<1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 4, 8, 0, 8, 8, 16, 0, 0, 16>>
Leaf(t, x) == [t |-> t, b |-> x, n |-> <<>>, s |-> <<>>]
VFail(p) == [ok |-> FALSE, p |-> p, v |-> <<>>, m |-> 0]

RECURSIVE Typed(_, _, _, _, _)
\* n items read by One(p), folded to [ok, p, v, m]
VRep(One(_), p, e, n) ==
  IF n > e - p THEN VFail(p)
  ELSE FoldLeft(LAMBDA a, i : IF ~a.ok THEN a
                  ELSE LET r == One(a.p)
                       IN IF r.ok THEN [ok |-> TRUE, p |-> r.p, v |-> Append(a.v, r.v), m |-> MaxOf(a.m, r.m)]
                          ELSE VFail(p),
                [ok |-> TRUE, p |-> p, v |-> <<>>, m |-> 0], [i \in 1..n |-> i])
\* the value of type ty stored at p
Typed(b, p, e, ty, d) ==
  IF ty < 1 \/ ty > 19 \/ d > 200 THEN VFail(p)
  ELSE IF ty = 13 THEN
    LET s == Field(b, e, St(p), <<"x", "str", 0>>)
    IN IF s.ok THEN [ok |-> TRUE, p |-> s.p, v |-> Leaf("String", s.v.x), m |-> 0] ELSE VFail(p)
  ELSE IF ty = 17 THEN
    IF p + 6 > e THEN VFail(p)
    ELSE LET n  == U32(b, p)
             et == U16(b, p + 4)
             r  == VRep(LAMBDA q : IF et # 0 THEN Typed(b, q, e, et, d + 1)
                                   ELSE IF q + 2 > e THEN VFail(q)
                                   ELSE Typed(b, q + 2, e, U16(b, q), d + 1), p + 6, e, n)
         IN IF ~r.ok \/ et > 19 THEN VFail(p)
            ELSE [ok |-> TRUE, p |-> r.p, m |-> r.m + 1,
                  v |-> [t |-> "Vector", b |-> <<b[p + 5], b[p + 6]>>, n |-> <<>>, s |-> r.v]]
  ELSE IF ty = 18 THEN
    IF p + 4 > e THEN VFail(p)
    ELSE LET r == VRep(LAMBDA q :
                    LET s == Field(b, e, St(q), <<"x", "str", 0>>)
                    IN IF ~s.ok \/ s.p + 2 > e THEN VFail(q)
                       ELSE LET v == Typed(b, s.p + 2, e, U16(b, s.p), d + 1)
                            IN IF v.ok THEN [v EXCEPT !.v = <<s.v.x, v.v>>] ELSE VFail(q),
                    p + 4, e, U32(b, p))
         IN IF ~r.ok THEN VFail(p)
            ELSE [ok |-> TRUE, p |-> r.p, m |-> r.m + 1,
                  v |-> [t |-> "Map", b |-> Zero4, n |-> [k \in 1..Len(r.v) |-> r.v[k][1]],
                         s |-> [k \in 1..Len(r.v) |-> r.v[k][2]]]]
  ELSE LET w == ScalarSize[ty]
       IN IF p + w > e THEN VFail(p)
          ELSE [ok |-> TRUE, p |-> p + w, m |-> 0,
                v |-> Leaf(ScalarTypes[ty], IF ty = 1 THEN <<IF b[p + 1] = 0 THEN 0 ELSE 1>> ELSE BN(b, p, w))]

\* a properties map of the chunk: its key followed by a map
KeyedMap(b, p, e) ==
  IF p + 4 > e THEN VFail(p)
  ELSE LET r == Typed(b, p + 4, e, 18, 0)
       IN IF r.ok THEN [r EXCEPT !.v = [@ EXCEPT !.b = B4(b, p)], !.m = @ - 1] ELSE VFail(p)

\* yields [ok, p, v, m]; v.props = <<[ok |-> 0, ...]>> for malformed properties
UserData(b, p, e) ==
  LET s0 == Read(b, e, St(p), << <<"fl", "b4", 0>> >>)
      fl == s0.v.fl[1]
      s1 == IF s0.ok THEN Opt(b, e, s0, Bit(fl, 0) = 1, <<"text", "str", 0>>) ELSE s0
      s2 == IF s0.ok THEN Opt(b, e, s1, Bit(fl, 1) = 1, <<"color", "bytes", 4>>) ELSE s0
      q  == s2.p
      size == U32(b, q)
      r  == VRep(LAMBDA x : KeyedMap(b, x, q + size), q + 8, q + size, U32(b, q + 4))
      ud(props) == [t |-> "UserData", text |-> s2.v.text, color |-> s2.v.color, props |-> props]
  IN IF ~s2.ok THEN VFail(p)
     ELSE IF Bit(fl, 2) = 0 THEN [ok |-> TRUE, p |-> q, v |-> ud(<<>>), m |-> 0]
     ELSE IF q + 8 > e THEN VFail(p)
     ELSE IF size < 8 \/ size > e - q THEN VFail(p)
     ELSE [ok |-> TRUE, p |-> q + size, m |-> r.m,
           v |-> ud(<<IF r.ok THEN [ok |-> 1, maps |-> r.v] ELSE [ok |-> 0, maps |-> <<>>]>>)]

----------------------------------------------------------------------------
\* A chunk: DWORD size (including itself), WORD type, content.
KnownTypes == {4, 17, 8196, 8197, 8198, 8199, 8200, 8214, 8215, 8216, 8217, 8224, 8226, 8227}

Content(b, p, e, ty) ==
  CASE ty = 4    -> OldPalette(b, p, e, "Palette0004")
    [] ty = 17   -> OldPalette(b, p, e, "Palette0011")
    [] ty = 8196 -> Layer(b, p, e)
    [] ty = 8197 -> Cel(b, p, e)
    [] ty = 8198 -> CelExtra(b, p, e)
    [] ty = 8199 -> ColorProfile(b, p, e)
    [] ty = 8200 -> ExternalFiles(b, p, e)
    [] ty = 8214 -> Mask(b, p, e)
    [] ty = 8215 -> [ok |-> TRUE, p |-> p, v |-> [t |-> "Path"]]
    [] ty = 8216 -> Tags(b, p, e)
    [] ty = 8217 -> Palette(b, p, e)
    [] ty = 8224 -> UserData(b, p, e)
    [] ty = 8226 -> Slice(b, p, e)
    [] ty = 8227 -> Tileset(b, p, e)
    [] OTHER     -> [ok |-> TRUE, p |-> p, v |-> [t |-> "Unsupported", code |-> ty]]

\* [ok, p |-> end of the chunk, v |-> the chunk, m |-> nesting of properties]
Chunk(b, p, e) ==
  IF p + 6 > e THEN VFail(p)
  ELSE LET size == U32(b, p)
       IN IF size < 6 \/ size > e - p THEN VFail(p)
          ELSE LET ty == U16(b, p + 4)
                   r  == Content(b, p + 6, p + size, ty)
               IN IF ~r.ok THEN VFail(p)
                  ELSE [ok |-> TRUE, p |-> p + size, v |-> r.v, m |-> IF ty = 8224 THEN r.m ELSE 0]

\* Nesting of up to this many containers must be supported; deeper values
\* may be decoded or reported as malformed properties.
NestLimit == 64
ChunkMatches(obs, c) ==
  \/ obs = c.v
  \/ c.m > NestLimit /\ obs = [c.v EXCEPT !.props = << [ok |-> 0, maps |-> <<>>] >>]
=============================================================================
