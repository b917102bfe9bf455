------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: are the recorded runs of the library behaviours of    *)
(* the specification?  A trace file holds sessions, one per line; each     *)
(* session is a sequence of events and is an initial state of its own.     *)
(* Events that correspond to a machine of the specification (container,    *)
(* assembly, inflate, rendering) start it; the machine then runs by itself *)
(* and its result has to agree with the observation.                       *)
(*                                                                         *)
(* FOCUS is the property under examination: it selects what is compared    *)
(* where one observation concerns several properties.                      *)
(***************************************************************************)
EXTENDS Scale, Pipeline, Render, Skip, Memory, Json, IOUtils, TLCExt

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES sid,   \* the session
          l,     \* the event to explain next; negative: that event was rejected
          m      \* machine that is running, or what is remembered
vars == <<sid, l, m>>

Ev == Sessions[sid].ev
E  == Ev[l]
Idle == [k |-> "idle", s |-> <<>>, mem |-> <<>>, doc |-> <<>>]

----------------------------------------------------------------------------
\* Bytes to chunks

ChunkOk ==
  LET r == Chunk(E.in, 0, Len(E.in))
  IN IF r.ok THEN E.st = "ok" /\ E.r[1].used = r.p /\ ChunkMatches(E.r[1].c, r) ELSE E.st = "err"
TypesOk == {E.known[i] : i \in 1..Len(E.known)} = KnownTypes

\* enumeration codes: all that have a name, the others are kept as they are
CodesOk ==
  LET Is(names) == E.known = [i \in 1..Len(names) |-> <<i - 1, names[i]>>]
  IN /\ E.kept = E.all - Len(E.known)
     /\ CASE E.en = "BlendMode"  -> Is(BlendNames)
          [] E.en = "LayerType"  -> Is(LayerTypes)
          [] E.en = "Direction"  -> Is(Directions)
          [] E.en = "FileType"   -> Is(FileTypes)
          [] E.en = "ColorDepth" -> /\ {E.known[i] : i \in 1..Len(E.known)} = {<<n, Depth(n)[1]>> : n \in {8, 16, 32}}
                                    /\ E.sizes = [i \in 1..Len(E.known) |-> <<E.known[i][1], PixelSize(E.known[i][2])>>]

TypeOf(c) == IF c.t = "Unsupported" THEN <<c.t, c.code>> ELSE <<c.t, 0>>
Framing(r) == [hdr |-> r.hdr, frames |-> [f \in 1..Len(r.frames) |->
                 [dur |-> r.frames[f].dur, chunks |-> Map(TypeOf, r.frames[f].chunks)]]]
RawOk ==
  IF E.in = <<>> THEN E.st # "panic"
  ELSE IF m.s.st = "err" THEN E.st = "err"
  ELSE E.st = "ok" /\ IF Focus = "C03" \/ m.s.deep THEN Framing(E.r[1]) = Framing(RawFile(m.s))
                      ELSE E.r[1] = RawFile(m.s)

----------------------------------------------------------------------------
\* Chunks to document (relative to the chunks the library reported)

HasRaw == l > 1 /\ Ev[l - 1].e = "raw"
Raw == Ev[l - 1].r[1]
FileOk ==
  IF ~HasRaw THEN E.st # "panic"
  ELSE IF Ev[l - 1].st # "ok" THEN E.st = "err"
  ELSE LET x == AResult(Raw, m.s)
       IN IF ~x.ok THEN E.st = "err"
          ELSE /\ E.st = "ok"
               /\ \/ Focus \in {"C07", "C08"}
                  \/ Elements(E.r[1]) = Elements(x.v)
               /\ \/ Focus \in {"C06", "C08"}
                  \/ Attached(E.r[1]) = Attached(x.v)
               /\ \/ Focus \in {"C06", "C07"}
                  \/ IF x.pal = <<>> THEN E.r[1].pal = <<>>
                     ELSE E.r[1].pal # <<>> /\ ColorsAre(E.r[1].pal[1], x.pal[1])

\* the cels of the frames
CelsOk == E.cels = [f \in 1..Len(Raw.frames) |-> SelectSeq(Raw.frames[f].chunks, LAMBDA c : c.t = "Cel")]

----------------------------------------------------------------------------
\* Document to high-level view (relative to the document it reported)

LoadEvOk ==
  LET f == Ev[l - 1]
      Name(r) == BN(E.in, r[1], r[2])
  IN IF f.st # "ok" THEN E.st = "err"
     ELSE IF ~LoadOk(f.r[1]) THEN E.st = "err"
     ELSE E.st = "ok" /\ E.r[1] = View(f.r[1], Name)

----------------------------------------------------------------------------
\* Large documents, at samples of their elements

D == Ev[1].d
SampleOk(xs, P(_)) == \A i \in 1..Len(xs) : P(xs[i])
Same(a, b) == IF Focus = "C03" THEN TypeOf(a) = TypeOf(b) ELSE a = b
BRawOk ==
  IF ~SRawOk(D) THEN E.st = "err"
  ELSE /\ E.st = "ok" /\ E.nf = NFrames(D)
       /\ SampleOk(E.fr, LAMBDA x : LET f == FrameOf(D, x[1])
                                   IN x[2] = Duration(f.f, f.j) /\ x[3] = DeclaredOf(f.f))
       /\ SampleOk(E.ch, LAMBDA x : Same(x[3], RawChunk(FrameOf(D, x[1]).f, x[2])))
BFileOk ==
  IF ~(SRawOk(D) /\ SFileOk(D)) THEN E.st = "err"
  ELSE /\ E.st = "ok" /\ E.nf = NFrames(D)
       /\ E.nl = Count("layers", D) /\ E.nt = Count("tags", D) /\ E.ns = Count("slices", D)
       /\ SampleOk(E.l, LAMBDA x : x[2] = Nth("layers", D, x[1]).v)
       /\ SampleOk(E.t, LAMBDA x : x[2] = Nth("tags", D, x[1]).v)
       /\ SampleOk(E.s, LAMBDA x : x[2] = Nth("slices", D, x[1]).v)
       /\ SampleOk(E.c, LAMBDA x : LET f == FrameOf(D, x[1])
                                  IN x[2] = Duration(f.f, f.j) /\ x[4] = SlotCel(f.f, x[3]))
BLayerOk(x) ==
  LET r == SLayerAt(D, x[1])
      y == r.v
  IN x[2] = [name |-> BN(r.b, y.name[1], y.name[2]), op |-> y.op, bk |-> y.bk, bv |-> y.bv, vis |-> y.vis,
             lk |-> y.lk, lv |-> y.lv]
BImageOk(x) ==
  LET y == SlotCel(FrameOf(D, x[1]).f, x[2])[1]
  IN x[3] = ImageIndex(D, x[1], x[2]) /\ x[4] = [w |-> y.w, h |-> y.h, data |-> y.data, comp |-> y.comp]
BLoadOk ==
  IF ~(SRawOk(D) /\ SFileOk(D) /\ SLoadOk(D)) THEN E.st = "err"
  ELSE /\ E.st = "ok" /\ E.nf = NFrames(D) /\ E.nimg = SImages(D)
       /\ E.nl = ExposedBefore(D, Count("layers", D)) /\ E.nt = Count("tags", D)
       /\ SampleOk(E.l, BLayerOk)
       /\ SampleOk(E.fr, LAMBDA x : LET f == FrameOf(D, x[1])
                                   IN /\ x[2] = Duration(f.f, f.j) /\ x[3] = 0 /\ x[4] = 0
                                      /\ x[5] = CelsBelow(D, f.f, Count("layers", D)))
       /\ SampleOk(E.c, LAMBDA x : /\ x[3] = CelsBelow(D, FrameOf(D, x[1]).f, x[2])
                                   /\ x[4] = SViewCel(D, x[1], x[2]))
       /\ SampleOk(E.im, BImageOk)

----------------------------------------------------------------------------
\* Stored data to pixels

Ctx == Ev[1]
Untouched(from) == \A k \in (from + 1)..Len(E.out) : E.out[k] = Prefill(E.fill, k)
Corrupt == E.st = "err" /\ E.kind \in {"InvalidImageData", "DecompressError"}
TooSmall == E.st = "err" /\ E.kind = "TargetBufferTooSmall"

Need == E.w * E.h * 4
ImgUnzips == E.comp = 1 /\ E.blen >= Need /\ Need > 0 /\ Ctx.dk # "Unknown"
ImgSize == E.w * E.h * PixelSize(Ctx.dk)
\* result of the inflate machine for exactly n bytes
Unzipped(n) == IF m.s.st = "ok" THEN IF Len(m.s.out) = n THEN "ok" ELSE "bad"
               ELSE IF m.s.st = "long" THEN "bad" ELSE m.s.st
ImgResult == IF E.comp = 0 THEN [st |-> IF Len(E.data) = ImgSize THEN "ok" ELSE "bad", d |-> E.data]
             ELSE [st |-> Unzipped(ImgSize), d |-> m.s.out]
ImgOk ==
  /\ Len(E.out) = E.blen
  /\ IF E.blen < Need THEN TooSmall /\ Untouched(0)
     ELSE /\ Untouched(Need)
          /\ IF Ctx.dk = "Unknown" THEN E.st = "err" /\ E.kind = "UnsupportedColorDepth"
             ELSE IF Need = 0 THEN E.st = "ok" \/ ((E.comp = 1 \/ Len(E.data) > 0) /\ Corrupt)
             ELSE LET r == ImgResult
                  IN CASE r.st = "ok"  -> E.st = "ok" /\ SubSeq(E.out, 1, Need) = ToRgba(Ctx.dk, Ctx.pal[1], r.d)
                       [] r.st = "bad" -> Corrupt
                       [] OTHER        -> E.st = "ok" \/ Corrupt
\* large images, at some of their pixels <<number, stored, RGBA>>
BigOk ==
  /\ E.st = "ok"
  /\ \A k \in 1..Len(E.px) : E.px[k][3] = ToRgba(Ctx.dk, Ctx.pal[1], E.px[k][2])
  /\ \A k \in 1..Len(E.tail) : E.tail[k] = Prefill(E.fill, 4 * E.w * E.h + k)
BigSmallOk == TooSmall /\ E.same = 1
BigDataOk == IF E.cut = 0 /\ E.have = E.w * E.h * PixelSize(Ctx.dk) THEN E.st = "ok" ELSE Corrupt
InflateOk ==
  /\ Len(E.out) = E.blen
  /\ CASE E.blen = 0 -> E.st = "ok" \/ Corrupt
       [] Unzipped(E.blen) = "ok"  -> E.st = "ok" /\ E.out = m.s.out
       [] Unzipped(E.blen) = "bad" -> Corrupt
       [] OTHER -> E.st = "ok" \/ Corrupt

----------------------------------------------------------------------------
\* Rendering (relative to the view and the images it reported, or to the
\* bytes of the file)

FromBytes == Ev[1].e = "doc"
Doc == m.doc[1]
V == IF FromBytes THEN Doc.view ELSE Ev[1].r
Imgs == IF FromBytes THEN Doc.imgs ELSE Ev[2].imgs
\* whether some image is decodable is left open
Open == FromBytes /\ \E i \in 1..Len(Doc.imgs) : Doc.imgs[i].st = "either"
DocOk == E.st = IF m.s.doc = <<>> THEN "err" ELSE "ok"
DocImgOk ==
  LET y == Doc.view.images[E.i + 1]
      r == Doc.imgs[E.i + 1]
      need == y.w * y.h * 4
  IN /\ Len(E.out) = E.blen
     /\ IF E.blen < need THEN TooSmall /\ Untouched(0)
        ELSE /\ Untouched(need)
             /\ IF Doc.dk = "Unknown" THEN E.st = "err" /\ E.kind = "UnsupportedColorDepth"
                ELSE CASE need = 0       -> E.st = "ok" \/ Corrupt
                       [] r.st = "ok"  -> E.st = "ok" /\ \A k \in 1..Len(r.px) : SubSeq(E.out, 4 * k - 3, 4 * k) = r.px[k]
                       [] r.st = "bad" -> Corrupt
                       [] OTHER        -> E.st = "ok" \/ Corrupt
RNeed == V.w * V.h * 4
DrawError == E.st = "err" /\ E.kind \in {"InvalidImageData", "DecompressError", "UnsupportedBlendMode",
                                         "UnsupportedColorDepth"}
Canvas(cv) ==
  LET idx == {E.diff[i][1] : i \in 1..Len(E.diff)}
  IN /\ \A i \in 1..Len(E.diff) : LET d == E.diff[i] IN <<d[2], d[3], d[4], d[5]>> \in cv[d[1] + 1]
     /\ \A i \in 1..Len(cv) : (i - 1) \in idx \/ RBg(E.bg, i) \in cv[i]
RenderOk ==
  IF Open THEN E.st # "panic"
  ELSE IF E.len < RNeed THEN TooSmall /\ E.diff = <<>>
  ELSE /\ \A i \in 1..Len(E.diff) : E.diff[i][1] < V.w * V.h
       /\ CASE m.s.st = "err"   -> DrawError
            [] m.s.st = "draw"  -> E.st = "ok" /\ Canvas(m.s.cv)
            [] m.s.st = "maybe" -> DrawError \/ (E.st = "ok" /\ Canvas(m.s.cv))
ImgsOk == \A i \in 1..Len(E.imgs) : E.imgs[i].st # "panic"

\* a selection helper marks exactly the layers for which p holds
Marks(p(_)) == /\ E.st = "ok" /\ Len(E.sel) = 1
               /\ \A i \in 1..Len(V.layers) : Selected(V, E.sel[1], i - 1) <=> p(V.layers[i])
SelNameOk == Marks(LAMBDA y : \E i \in 1..Len(E.names) : E.names[i] = y.name)
Pred(y) == CASE E.p = "vis"   -> y.vis = 1
             [] E.p = "hid"   -> y.vis = 0
             [] E.p = "op"    -> y.op >= E.t
             [] E.p = "first" -> y.name = <<76, 48>>
             [] E.p = "none"  -> FALSE
             [] E.p = "group" -> y.lk = "Group"
SelPredOk == Marks(Pred)

BlendOk == /\ E.st = "ok" /\ Len(E.out) = Len(E.back)
           /\ \A i \in 1..Len(E.out) : E.out[i] \in Blend(BlendNames[E.mode + 1], E.back[i], E.front[i], E.op)

----------------------------------------------------------------------------
\* Histories: a call has the result it always has

Known(k) == k \in DOMAIN m.mem
CallOk == E.r.st # "panic" /\ (Known(E.k) => m.mem[E.k] = E.r)
Remember == IF Known(E.k) THEN m ELSE [m EXCEPT !.mem = (E.k :> E.r) @@ @]
\* fingerprints: equal exactly for equal cels of the same file
FpOk == /\ E.st = "ok"
        /\ \A i \in 1..(l - 1) : Ev[i].e = "fp" /\ Ev[i].f = E.f =>
             ((Ev[i].h = E.h) <=> (Ev[i].cels = E.cels))

----------------------------------------------------------------------------
\* Skipped content, memory, totality

ContentOk == l = 1 \/ E = Ev[1]
PerturbOk == AllHarmless(E.types, E.ops)
AllocOk == E.st # "panic" /\ E.peak <= Bound(E.len, E.layers, E.frames, E.nest)
TallyOk == E.panic = 0

----------------------------------------------------------------------------
\* Machines: which one an event starts, its step, whether it has finished

Machine ==
  CASE E.e = "raw"     -> IF E.in = <<>> THEN "none" ELSE "container"
    [] E.e = "doc"     -> "pipeline"
    [] E.e = "file"    -> IF HasRaw /\ Ev[l - 1].st = "ok" THEN "assemble" ELSE "none"
    [] E.e = "img"     -> IF ImgUnzips THEN "inflate" ELSE "none"
    [] E.e = "inflate" -> "inflate"
    [] E.e = "render"  -> IF E.len >= RNeed THEN "render" ELSE "none"
    [] OTHER -> "none"
Lim == IF E.e = "img" THEN ImgSize ELSE E.blen
Begin == CASE Machine = "container" -> CStart(E.in)
           [] Machine = "pipeline"  -> PStart(E.in)
           [] Machine = "assemble"  -> AStart
           [] Machine = "inflate"   -> IStart(E.data)
           [] Machine = "render"    -> RStart(V, E.bg)
Finished == CASE m.k = "container" -> CDone(m.s)
              [] m.k = "pipeline"  -> PDone(m.s)
              [] m.k = "assemble"  -> ADone(Raw, m.s)
              [] m.k = "inflate"   -> IDone(m.s)
              [] m.k = "render"    -> RDone(V, E.f, E.sel, m.s)
Go == CASE m.k = "container" -> CStep(E.in, m.s)
        [] m.k = "pipeline"  -> PStep(E.in, m.s)
        [] m.k = "assemble"  -> AStep(Raw, m.s)
        [] m.k = "inflate"   -> IStep(E.data, Lim, m.s)
        [] m.k = "render"    -> RStep(V, Imgs, E.f, E.sel, m.s)

Explained ==
  CASE E.e = "chunk"   -> ChunkOk
    [] E.e = "types"   -> TypesOk
    [] E.e = "codes"   -> CodesOk
    [] E.e = "rcels"   -> CelsOk
    [] E.e = "raw"     -> RawOk
    [] E.e = "file"    -> FileOk
    [] E.e = "load"    -> LoadEvOk
    [] E.e = "doc"     -> DocOk
    [] E.e = "dimg"    -> DocImgOk
    [] E.e = "bdoc"    -> TRUE
    [] E.e = "braw"    -> BRawOk
    [] E.e = "bfile"   -> BFileOk
    [] E.e = "bload"   -> BLoadOk
    [] E.e = "ctx"     -> TRUE
    [] E.e = "img"     -> ImgOk
    [] E.e = "simg"    -> BigOk
    [] E.e = "bsmall"  -> BigSmallOk
    [] E.e = "bdata"   -> BigDataOk
    [] E.e = "inflate" -> InflateOk
    [] E.e = "view"    -> TRUE
    [] E.e = "imgs"    -> ImgsOk
    [] E.e = "selname" -> SelNameOk
    [] E.e = "selpred" -> SelPredOk
    [] E.e = "render"  -> RenderOk
    [] E.e = "blend"   -> BlendOk
    [] E.e = "call"    -> CallOk
    [] E.e = "fp"      -> FpOk
    [] E.e = "content" -> ContentOk
    [] E.e = "perturb" -> PerturbOk
    [] E.e = "alloc"   -> AllocOk
    [] E.e = "tally"   -> TallyOk
    [] OTHER -> FALSE
After == IF E.e = "call" THEN Remember ELSE IF m.k = "idle" THEN m
         ELSE [m EXCEPT !.k = "idle", !.s = <<>>, !.doc = IF E.e = "doc" THEN m.s.doc ELSE @]

Init == sid \in DOMAIN Sessions /\ l = 1 /\ m = Idle
Start   == m.k = "idle" /\ Machine # "none" /\ m' = [m EXCEPT !.k = Machine, !.s = Begin] /\ UNCHANGED l
Proceed == m.k # "idle" /\ ~Finished /\ m' = [m EXCEPT !.s = Go] /\ UNCHANGED l
Judge   == /\ IF m.k = "idle" THEN Machine = "none" ELSE Finished
           /\ IF Explained THEN l' = l + 1 /\ m' = After /\ (l = Len(Ev) => PrintT(<<"ACC", sid>>))
              ELSE l' = -l /\ m' = m /\ PrintT(<<"REJ", sid, l>>)
Next == l \in 1..Len(Ev) /\ UNCHANGED sid /\ (Start \/ Proceed \/ Judge)
Spec == Init /\ [][Next]_vars
=============================================================================
