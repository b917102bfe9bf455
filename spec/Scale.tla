------------------------------- MODULE Scale --------------------------------
(***************************************************************************)
(* Large documents.  The machines of Container, Assemble and Loader visit  *)
(* every byte; here a document is given as runs of equal parts, and what   *)
(* the machines arrive at is stated pointwise, in closed form, so that     *)
(* documents with tens of thousands of frames, chunks or layers can be     *)
(* checked at any of their elements.  MCScale shows that both accounts     *)
(* agree on all small documents.                                           *)
(*                                                                         *)
(* A document is a sequence of frame runs                                  *)
(*   [n |-> how many frames, dur |-> duration of the first,                *)
(*    ds |-> increase of the duration, old, new |-> declared chunk counts, *)
(*    ch |-> sequence of chunk runs]                                       *)
(* A chunk run is a group of chunks, repeated:                             *)
(*   [n |-> how often, g |-> the chunks (bytes), c, at, wd, v0 |-> where   *)
(*    instance i holds the number v0 + i: in the chunk c at offset at, in  *)
(*    wd bytes; c = 0: nowhere]                                            *)
(* User data never comes first in a group.                                 *)
(***************************************************************************)
EXTENDS Loader, Container

Patch(b, at, wd, v) ==
  IF wd = 1 THEN [b EXCEPT ![at + 1] = v % 256]
  ELSE [b EXCEPT ![at + 1] = v % 256, ![at + 2] = (v \div 256) % 256]
\* the chunks of instance i (from 0) of a run
Inst(x, i) == IF x.c = 0 THEN x.g ELSE [x.g EXCEPT ![x.c] = Patch(@, x.at, x.wd, x.v0 + i)]
InstBytes(x, i) == FoldLeft(LAMBDA a, c : a \o c, <<>>, Inst(x, i))
\* decoded, positions counted from the start of the group
InstChunks(x, i) == LET b == InstBytes(x, i) IN FrameChunks(b, 0, Len(b), Len(x.g))

Sum(s) == FoldLeft(LAMBDA a, n : a + n, 0, s)
\* which of consecutive parts of the sizes ns holds element j, and where in it
Locate(ns, j) ==
  FoldLeft(LAMBDA a, k : IF a.r # 0 THEN a
                         ELSE IF a.j < ns[k] THEN [a EXCEPT !.r = k] ELSE [a EXCEPT !.j = @ - ns[k]],
           [r |-> 0, j |-> j], [k \in 1..Len(ns) |-> k])

NFrames(d) == Sum(Map(LAMBDA f : f.n, d))
FrameOf(d, k) == LET q == Locate(Map(LAMBDA f : f.n, d), k) IN [f |-> d[q.r], j |-> q.j]
Duration(f, j) == (f.dur + j * f.ds) % 65536

----------------------------------------------------------------------------
\* Container
Present(f) == Sum(Map(LAMBDA x : x.n * Len(x.g), f.ch))
DeclaredOf(f) == IF f.new # 0 THEN f.new ELSE f.old
\* the number of good chunks before the first that cannot be decoded
GoodPrefix(f) ==
  FoldLeft(LAMBDA a, x : IF a.stop THEN a
             ELSE LET ok(m) == LET b == FoldLeft(LAMBDA p, c : p \o c, <<>>, SubSeq(x.g, 1, m))
                               IN FrameChunks(b, 0, Len(b), m).ok
                      bad == {m \in 1..Len(x.g) : ~ok(m)}
                  IN IF x.n = 0 \/ bad = {} THEN [a EXCEPT !.n = @ + x.n * Len(x.g)]
                     ELSE [n |-> a.n + (CHOOSE m \in bad : \A q \in bad : m <= q) - 1, stop |-> TRUE],
           [n |-> 0, stop |-> FALSE], f.ch).n
SRawOk(d) == NFrames(d) > 0 /\ \A r \in 1..Len(d) : d[r].n = 0 \/ DeclaredOf(d[r]) <= GoodPrefix(d[r])
\* chunk j of a frame: its group, the instance and the place in the group
ChunkAt(f, j) ==
  LET q == Locate(Map(LAMBDA x : x.n * Len(x.g), f.ch), j)
      x == f.ch[q.r]
      m == Len(x.g)
  IN [x |-> x, i |-> q.j \div m, c |-> (q.j % m) + 1]
RawChunk(f, j) == LET q == ChunkAt(f, j) IN InstChunks(q.x, q.i).v[q.c]

----------------------------------------------------------------------------
\* Document: for frames that declare all of their chunks
Whole(d) == \A r \in 1..Len(d) : DeclaredOf(d[r]) = Present(d[r])
\* what one group contributes
GroupDoc(x, i) ==
  LET raw == [frames |-> <<[dur |-> 0, chunks |-> InstChunks(x, i).v]>>]
  IN ARun(raw)
Of(T, s) == CASE T = "layers" -> s.layers [] T = "tags" -> s.tags [] T = "slices" -> s.slices
              [] T = "cels" -> s.done[1].cels
PerGroup(T, x) == IF x.n = 0 THEN 0 ELSE Len(Of(T, GroupDoc(x, 0)))
PerRun(T, x) == x.n * PerGroup(T, x)
PerFrame(T, f) == Sum(Map(LAMBDA x : PerRun(T, x), f.ch))
Count(T, d) == Sum(Map(LAMBDA f : f.n * PerFrame(T, f), d))
InFrame(T, f, j) ==
  LET q == Locate(Map(LAMBDA x : PerRun(T, x), f.ch), j)
      x == f.ch[q.r]
      m == PerGroup(T, x)
  IN [x |-> x, i |-> q.j \div m, v |-> Of(T, GroupDoc(x, q.j \div m))[(q.j % m) + 1]]
Nth(T, d, j) ==
  LET q == Locate(Map(LAMBDA f : f.n * PerFrame(T, f), d), j)
  IN InFrame(T, d[q.r], q.j % PerFrame(T, d[q.r]))

\* cels come in groups with at most one of them; the layer index is fixed or
\* counts up
Counts(x) == x.c = 1 /\ x.at = 6 /\ x.wd = 2
CelOf(x, i) == GroupDoc(x, i).done[1].cels[1]
\* the instance that holds a cel of layer c, or -1
SlotInst(x, c) ==
  IF PerRun("cels", x) = 0 THEN -1
  ELSE IF Counts(x) THEN IF c >= x.v0 /\ c < x.v0 + x.n THEN c - x.v0 ELSE -1
  ELSE IF CelOf(x, 0).li = c THEN x.n - 1 ELSE -1
\* the last of them: [x, i] with i = -1 if there is none
Slot(f, c) == FoldLeft(LAMBDA a, x : LET i == SlotInst(x, c) IN IF i >= 0 THEN [x |-> x, i |-> i] ELSE a,
                       [x |-> <<>>, i |-> -1], f.ch)
SlotCel(f, c) == LET s == Slot(f, c) IN IF s.i < 0 THEN <<>> ELSE <<CelOf(s.x, s.i)>>
TopLayer(x) == IF PerRun("cels", x) = 0 THEN -1 ELSE IF Counts(x) THEN x.v0 + x.n - 1 ELSE CelOf(x, 0).li
SFileOk(d) == \A r \in 1..Len(d) : d[r].n = 0 \/ \A k \in 1..Len(d[r].ch) : TopLayer(d[r].ch[k]) < Count("layers", d)

----------------------------------------------------------------------------
\* View: for frames whose chunk runs hold cels of different layers
\* exposed layers among the first c
ExposedRun(x) == IF PerRun("layers", x) = 0 THEN 0
                 ELSE x.n * Len(SelectSeq(GroupDoc(x, 0).layers, Exposed))
ExposedBefore(d, c) ==
  \* the layers are all in the first frame, one per group
  FoldLeft(LAMBDA a, x : LET m == PerRun("layers", x)
                         IN [n |-> a.n + (IF ExposedRun(x) = 0 THEN 0 ELSE MinOf(m, a.left)),
                             left |-> a.left - MinOf(m, a.left)],
           [n |-> 0, left |-> c], d[1].ch).n
IsImage(x) == PerRun("cels", x) > 0 /\ CelOf(x, 0).ck = "Image"
\* the layers lo..hi-1 a run of cels covers
Lo(x) == IF Counts(x) THEN x.v0 ELSE CelOf(x, 0).li
Hi(x) == IF Counts(x) THEN x.v0 + x.n ELSE CelOf(x, 0).li + 1
ImagesIn(f) == Sum(Map(LAMBDA x : IF IsImage(x) THEN Hi(x) - Lo(x) ELSE 0, f.ch))
ImagesBelow(f, c) == Sum(Map(LAMBDA x : IF ~IsImage(x) \/ c <= Lo(x) THEN 0 ELSE MinOf(c, Hi(x)) - Lo(x), f.ch))
ImagesBefore(d, k) ==
  FoldLeft(LAMBDA a, f : [n |-> a.n + MinOf(f.n, a.left) * ImagesIn(f), left |-> a.left - MinOf(f.n, a.left)],
           [n |-> 0, left |-> k], d).n
ImageIndex(d, k, c) == ImagesBefore(d, k) + ImagesBelow(FrameOf(d, k).f, c)
SImages(d) == ImagesBefore(d, NFrames(d))
\* cels of exposed layers below c in a frame
CelsBelow(d, f, c) ==
  Sum(Map(LAMBDA x : IF PerRun("cels", x) = 0 \/ c <= Lo(x) THEN 0
                     ELSE ExposedBefore(d, MinOf(c, Hi(x))) - ExposedBefore(d, Lo(x)), f.ch))
\* where the image of the cel at frame k, layer c is: [k, ok]
STarget(d, k, c) ==
  LET cel == SlotCel(FrameOf(d, k).f, c)[1]
      t == SlotCel(FrameOf(d, cel.fp).f, c)
  IN IF cel.ck = "Image" THEN [ok |-> TRUE, k |-> k]
     ELSE IF cel.ck # "Linked" \/ cel.fp >= NFrames(d) THEN [ok |-> FALSE, k |-> 0]
     ELSE IF t = <<>> THEN [ok |-> FALSE, k |-> 0]
     ELSE [ok |-> t[1].ck = "Image", k |-> cel.fp]
SLoadOk(d) ==
  \A r \in 1..Len(d) : d[r].n > 0 =>
    \A y \in 1..Len(d[r].ch) :
      LET x == d[r].ch[y]
          k0 == Sum(Map(LAMBDA f : f.n, SubSeq(d, 1, r - 1)))
      IN PerRun("cels", x) > 0 /\ ~IsImage(x) => \A c \in Lo(x)..(Hi(x) - 1) : STarget(d, k0, c).ok
\* the cel of frame k and layer c as the view shows it
SViewCel(d, k, c) ==
  LET cel == SlotCel(FrameOf(d, k).f, c)[1]
      t == STarget(d, k, c).k
      img == SlotCel(FrameOf(d, t).f, c)[1]
  IN [x |-> cel.x, y |-> cel.y, w |-> img.w, h |-> img.h, l |-> ExposedBefore(d, c), i |-> ImageIndex(d, t, c)]
\* exposed layers are listed in order: the layer with exposed index e
SLayerAt(d, e) ==
  LET xs == SelectSeq(d[1].ch, LAMBDA x : ExposedRun(x) > 0)
      q == Locate(Map(ExposedRun, xs), e)
  IN [v |-> GroupDoc(xs[q.r], q.j).layers[1], b |-> InstBytes(xs[q.r], q.j)]
=============================================================================
