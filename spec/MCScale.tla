------------------------------ MODULE MCScale -------------------------------
(***************************************************************************)
(* The closed forms of Scale against the machines: every document of at    *)
(* most RUNS chunk runs in at most two frame runs.                         *)
(***************************************************************************)
EXTENDS Scale, Encode

CONSTANTS RUNS, NS, FNS, DELTAS, FIRST, REST

VARIABLES d, left     \* the document; chunk runs that may still be added
vars == <<d, left>>

Lay(ty) == ELayer(1, ty, 3, 77, <<97, 98>>)
Img == ERaw(0, 5, -6, 2, 1, <<1, 2, 3>>)
Fix(g) == [g |-> g, c |-> 0, at |-> 0, wd |-> 0, v0 |-> 0]
Step(g, c, at, wd, v0) == [g |-> g, c |-> c, at |-> at, wd |-> wd, v0 |-> v0]
Run(name) ==
  CASE name = "layer"  -> Step(<<Lay(0)>>, 1, 18, 1, 250)           \* the opacity counts
    [] name = "layerU" -> Step(<<Lay(0), EColorUd(<<9, 8, 7, 6>>)>>, 2, 10, 1, 3)
    [] name = "group"  -> Fix(<<Lay(1)>>)
    [] name = "tilem"  -> Fix(<<Lay(2)>>)
    [] name = "two"    -> Fix(<<Lay(0), Lay(1), EColorUd(<<1, 1, 1, 1>>)>>)
    [] name = "tags"   -> Step(<<ETags(<<ETag(1, 2, 0, 3, <<120>>), ETag(4, 5, 1, 0, <<>>)>>), EColorUd(<<4, 4, 4, 4>>)>>, 1, 31, 2, 65534)
    [] name = "slice"  -> Fix(<<ESlice(4, <<115>>), EColorUd(<<2, 3, 4, 5>>)>>)
    [] name = "img0"   -> Step(<<Img>>, 1, 6, 2, 0)
    [] name = "img1"   -> Step(<<Img, EColorUd(<<5, 5, 5, 5>>)>>, 1, 6, 2, 1)
    [] name = "img2"   -> Step(<<Img>>, 1, 6, 2, 2)
    [] name = "one1"   -> Step(<<ERaw(1, 5, -6, 2, 1, <<1, 2, 3>>)>>, 1, 8, 2, 65535)   \* x counts
    [] name = "link0"  -> Step(<<ELink(0, 3, 4, 0)>>, 1, 6, 2, 0)
    [] name = "link1"  -> Step(<<ELink(1, 3, 4, 1)>>, 1, 6, 2, 1)
    [] name = "odd"    -> Fix(<<EChunk(30000, <<1>>)>>)
    [] name = "pair"   -> Fix(<<EChunk(30000, <<1>>), EChunk(8215, <<>>), EColorUd(<<0, 0, 0, 1>>)>>)
    [] name = "bad"    -> Fix(<<EChunk(8215, <<>>), EChunk(8196, <<1, 2>>)>>)
Add(name, n) == [n |-> n] @@ Run(name)

DeltasQ == -1..1
Frame(n, k) == [n |-> n, dur |-> 65534 + k, ds |-> k, old |-> 0, new |-> 0, ch |-> <<>>]
Init == d \in {<<Frame(n, 1)>> : n \in FNS} /\ left = RUNS
Next ==
  \/ /\ left > 0
     /\ \E name \in (IF Len(d) = 1 THEN FIRST ELSE REST) : \E n \in NS :
          d' = [d EXCEPT ![Len(d)].ch = Append(@, Add(name, n))]
     /\ left' = left - 1
  \/ /\ Len(d) = 1 /\ UNCHANGED left
     /\ \E n \in FNS : d' = Append(d, Frame(n, 0))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the document with the declared numbers of chunks off by delta
With(enc, delta) ==
  [r \in 1..Len(d) |-> LET n == Present(d[r]) + (IF r = Len(d) THEN delta ELSE 0)
                           m == IF n < 0 THEN 0 ELSE n
                       IN [d[r] EXCEPT !.old = IF enc = "new" THEN 65535 ELSE m, !.new = IF enc = "old" THEN 0 ELSE m]]
Body(f) == Cat(Map(LAMBDA x : Cat([i \in 1..x.n |-> InstBytes(x, i - 1)]), f.ch))
FrameBytes(f, j) == EFrameX(Duration(f, j), f.old, f.new, Body(f), 0, 61946)
Bytes(e) == EHeader(3, 4, 32, 0) \o Cat(Map(LAMBDA f : Cat([j \in 1..f.n |-> FrameBytes(f, j - 1)]), e))

\* values without positions: the bytes they borrow
Res(b, x) ==
  CASE x.t = "Layer" -> [x EXCEPT !.name = BN(b, @[1], @[2])]
    [] x.t = "Slice" -> [x EXCEPT !.name = BN(b, @[1], @[2])]
    [] x.t = "Cel"   -> [x EXCEPT !.data = BN(b, @[1], @[2])]
    [] x.t = "Tags"  -> [x EXCEPT !.tags = Map(LAMBDA y : [y EXCEPT !.name = BN(b, @[1], @[2])], @)]
    [] OTHER -> x
ResTag(b, y) == [y EXCEPT !.name = BN(b, @[1], @[2])]

SameRaw(e) ==
  LET b == Bytes(e)
      s == CRun(b)
  IN /\ (s.st = "ok") = SRawOk(e)
     /\ s.st = "ok" =>
        /\ Len(s.frames) = NFrames(e)
        /\ \A k \in 0..(NFrames(e) - 1) :
             LET f == FrameOf(e, k)
             IN /\ s.frames[k + 1].dur = Duration(f.f, f.j)
                /\ Len(s.frames[k + 1].chunks) = DeclaredOf(f.f)
                /\ \A j \in 0..(DeclaredOf(f.f) - 1) :
                     LET q == ChunkAt(f.f, j)
                     IN Res(b, s.frames[k + 1].chunks[j + 1]) = Res(InstBytes(q.x, q.i), RawChunk(f.f, j))
SameDoc(e) ==
  LET b == Bytes(e)
      raw == RawFile(CRun(b))
      r == AResult(raw, ARun(raw))
      same(T, all, res(_, _)) ==
        /\ Len(all) = Count(T, e)
        /\ \A j \in 0..(Len(all) - 1) :
             LET q == Nth(T, e, j) IN res(b, all[j + 1]) = res(InstBytes(q.x, q.i), q.v)
  IN SRawOk(e) =>
     /\ r.ok = SFileOk(e)
     /\ r.ok =>
        /\ same("layers", r.v.layers, Res)
        /\ same("tags", r.v.tags, ResTag)
        /\ same("slices", r.v.slices, Res)
        /\ \A k \in 0..(NFrames(e) - 1) : \A c \in 0..(Len(r.v.layers) - 1) :
             LET f == FrameOf(e, k).f
                 x == r.v.frames[k + 1].cels[c + 1]
                 y == Slot(f, c)
             IN /\ (x = <<>>) = (y.i < 0)
                /\ x # <<>> => Res(b, x[1]) = Res(InstBytes(y.x, y.i), SlotCel(f, c)[1])
\* what the closed form of the view presupposes
ForView(e) ==
  /\ e[1].n = 1
  /\ \A r \in 1..Len(e) : \A y \in 1..Len(e[r].ch) :
       LET x == e[r].ch[y]
       IN /\ PerGroup("layers", x) <= (IF r = 1 THEN 1 ELSE 0)
          /\ \A z \in 1..(y - 1) : LET w == e[r].ch[z]
                                   IN PerRun("cels", x) > 0 /\ PerRun("cels", w) > 0 => Hi(x) <= Lo(w) \/ Hi(w) <= Lo(x)
SameView(e) ==
  LET b == Bytes(e)
      raw == RawFile(CRun(b))
      v == AResult(raw, ARun(raw)).v
      w == View(v, LAMBDA x : x)
  IN SRawOk(e) /\ SFileOk(e) /\ ForView(e) =>
     /\ LoadOk(v) = SLoadOk(e)
     /\ LoadOk(v) =>
        /\ Len(w.frames) = NFrames(e)
        /\ w.nimg = SImages(e)
        /\ Len(w.layers) = ExposedBefore(e, Count("layers", e))
        /\ \A i \in 0..(Len(w.layers) - 1) : LET y == SLayerAt(e, i)
                                           IN /\ w.layers[i + 1].op = y.v.op /\ w.layers[i + 1].lk = y.v.lk
                                              /\ BN(b, w.layers[i + 1].name[1], w.layers[i + 1].name[2]) = BN(y.b, y.v.name[1], y.v.name[2])
        /\ \A k \in 0..(NFrames(e) - 1) :
             /\ Len(w.frames[k + 1].cels) = CelsBelow(e, FrameOf(e, k).f, Len(v.layers))
             /\ \A c \in 0..(Len(v.layers) - 1) :
                  v.frames[k + 1].cels[c + 1] # <<>> /\ Exposed(v.layers[c + 1]) =>
                    w.frames[k + 1].cels[CelsBelow(e, FrameOf(e, k).f, c) + 1] = SViewCel(e, k, c)
RawAgrees == \A enc \in {"old", "new", "both"} : \A delta \in DELTAS : SameRaw(With(enc, delta))
DocAgrees == SameDoc(With("old", 0))
ViewAgrees == SameView(With("old", 0))
=============================================================================
