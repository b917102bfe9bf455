------------------------------ MODULE MCRender -------------------------------
(***************************************************************************)
(* Rendering: placements of one cel (including the ends of the coordinate  *)
(* range and cels larger than the canvas), stacks of layers of every style *)
(* with every kind of selection, and frames with linked cels.  The file is *)
(* built, decoded by the other modules and drawn by the render machine,    *)
(* one step per cel; the account here speaks of single pixels.             *)
(***************************************************************************)
EXTENDS Container, Loader, Pixels, Render, Encode

CONSTANTS
  CANVASES,   \* of the placements
  SIZES,      \* widths and heights of the placed cel
  COORDS,     \* positions of the placed cel
  STYLES,     \* of the layers of a stack
  STACK,      \* number of layers of a stack
  MASKS,      \* masks used with stacks
  ORDERS,     \* orders of the cels in the file: "up", "down"
  FRAMESETS   \* frames of the third kind, as sequences of slot contents

VARIABLES c,      \* the configuration: <<>> or a record
          b,      \* the file
          v, im,  \* its view and its images
          s       \* the render machine
vars == <<c, b, v, im, s>>

Px(l, k) == << (37 * k + 50 * l) % 256, (91 * k + 7 * l) % 256, (200 + 13 * k + l) % 256,
               << 255, 128, 1, 254, 0, 77 >>[((k + l) % 6) + 1] >>
Bg == << <<10, 20, 30, 255>>, <<200, 100, 0, 128>>, <<9, 8, 7, 0>>, <<0, 0, 0, 1>>, <<250, 251, 252, 253>> >>
CelData(l, n) == Cat([k \in 1..n |-> Px(l, k)])

\* styles of layers: type, flags, blend mode, opacity, and how many bytes the
\* images of the layer lack
StyleOf == [
  normal  |-> [ty |-> 0, fl |-> 1, bm |-> 0, op |-> 255, cut |-> 0],
  half    |-> [ty |-> 0, fl |-> 3, bm |-> 0, op |-> 128, cut |-> 0],
  hidden  |-> [ty |-> 0, fl |-> 0, bm |-> 0, op |-> 200, cut |-> 0],
  lock    |-> [ty |-> 0, fl |-> 126, bm |-> 0, op |-> 200, cut |-> 0],
  mult    |-> [ty |-> 0, fl |-> 1, bm |-> 1, op |-> 255, cut |-> 0],
  clear   |-> [ty |-> 0, fl |-> 1, bm |-> 2, op |-> 0, cut |-> 0],
  odd     |-> [ty |-> 0, fl |-> 1, bm |-> 99, op |-> 255, cut |-> 0],
  hodd    |-> [ty |-> 0, fl |-> 0, bm |-> 99, op |-> 255, cut |-> 0],
  group   |-> [ty |-> 1, fl |-> 1, bm |-> 0, op |-> 255, cut |-> 0],
  hgroup  |-> [ty |-> 1, fl |-> 0, bm |-> 0, op |-> 255, cut |-> 0],
  empty   |-> [ty |-> 0, fl |-> 1, bm |-> 0, op |-> 255, cut |-> 0],
  oddly   |-> [ty |-> 0, fl |-> 1, bm |-> 19, op |-> 0, cut |-> 0],
  short   |-> [ty |-> 0, fl |-> 1, bm |-> 0, op |-> 255, cut |-> 1],
  hshort  |-> [ty |-> 0, fl |-> 0, bm |-> 0, op |-> 255, cut |-> 3],
  tiles   |-> [ty |-> 2, fl |-> 1, bm |-> 0, op |-> 255, cut |-> 0] ]

\* a configuration: canvas w, h; layers: styles; frames: sequences of cels
\* [l, x, y, w, h, to] (to: 0, or the frame whose image it shows); f; sel; order
SelV == [k |-> "Visible", m |-> <<>>]
SelA == [k |-> "All", m |-> <<>>]
SelM(m) == [k |-> "Mask", m |-> m]
MkCel(l, x, y, w, h, to) == [l |-> l, x |-> x, y |-> y, w |-> w, h |-> h, to |-> to]
Places == { [w |-> cv[1], h |-> cv[2], layers |-> <<"half">>, f |-> 1, order |-> "up", sel |-> SelV,
             frames |-> << << MkCel(1, x, y, w, h, 0) >> >>] :
            cv \in CANVASES, x \in COORDS, y \in COORDS, w \in SIZES, h \in SIZES }
\* the same with what cannot be drawn
Faulty == { [w |-> cv[1], h |-> cv[2], layers |-> <<st>>, f |-> 1, order |-> "up", sel |-> SelV,
             frames |-> << << MkCel(1, x, y, w, 1, 0) >> >>] :
            cv \in CANVASES, x \in COORDS, y \in COORDS, w \in {0, 2}, st \in {"odd", "oddly", "short"} }
Stacks == { [w |-> 2, h |-> 2, layers |-> ls, f |-> 1, order |-> o, sel |-> sel,
             frames |-> << SelectSeq([l \in 1..STACK |-> MkCel(l, (l % 2) - 1, 1 - (l % 2), 2, 2, 0)],
                                     LAMBDA x : ls[x.l] # "empty") >>] :
            ls \in [1..STACK -> STYLES], o \in ORDERS, sel \in {SelV, SelA} \cup { SelM(m) : m \in MASKS } }
Filmed == { [w |-> 2, h |-> 1, layers |-> <<"half", "normal">>, f |-> f, order |-> "up", sel |-> SelA,
             frames |-> [k \in 1..Len(fs) |-> SelectSeq(
                [l \in 1..2 |-> MkCel(l, IF k = 1 THEN 0 ELSE l - 1, 0, IF fs[k][l] = 0 THEN 1 + (k % 2) ELSE 1, 1,
                                    IF fs[k][l] < 0 THEN -1 ELSE fs[k][l])],
                LAMBDA x : x.to >= 0)]] : fs \in FRAMESETS, f \in 1..3 }
Film == { x \in Filmed : x.f <= Len(x.frames) }

ImgNo(k, l) == 10 * k + l
CelBytes(x, k, cut) ==
  IF x.to > 0 THEN ELink(x.l - 1, x.x, x.y, x.to - 1)
  ELSE LET d == CelData(ImgNo(k, x.l), x.w * x.h)
       IN ERaw(x.l - 1, x.x, x.y, x.w, x.h, IF cut > Len(d) THEN <<7>> ELSE SubSeq(d, 1, Len(d) - cut))
File(z) ==
  EHeader(z.w, z.h, 32, 0) \o
  Cat([k \in 1..Len(z.frames) |->
    LET n == Len(z.frames[k])
        cel(i) == z.frames[k][IF z.order = "up" THEN i ELSE n + 1 - i]
        ls == IF k = 1 THEN [l \in 1..Len(z.layers) |->
                 LET y == StyleOf[z.layers[l]] IN ELayer(y.fl, y.ty, y.bm, y.op, <<64 + l>>)] ELSE <<>>
    IN EFrame(10, ls \o [i \in 1..n |-> CelBytes(cel(i), k, StyleOf[z.layers[cel(i).l]].cut)])])

Init == c = <<>> /\ b = <<>> /\ v = <<>> /\ im = <<>> /\ s = <<>>
Pick ==
  /\ c = <<>>
  /\ \E z \in Places \cup Faulty \cup Stacks \cup Film : c' = z
  /\ UNCHANGED <<b, v, im, s>>
Build ==
  /\ c # <<>> /\ b = <<>>
  /\ c' = c
  /\ b' = File(c)
  /\ LET raw == RawFile(CRun(b'))
         d == AResult(raw, ARun(raw)).v
     IN /\ LoadOk(d)
        /\ v' = View(d, LAMBDA x : BN(b', x[1], x[2]))
        /\ im' = [i \in 1..v'.nimg |->
                   LET g == v'.images[i]
                       r == Decode("Rgba", <<>>, g.w, g.h, g.comp, BN(b', g.data[1], g.data[2]))
                   IN [st |-> r.st, px |-> [k \in 1..(Len(r.px) \div 4) |-> SubSeq(r.px, 4 * k - 3, 4 * k)]]]
        /\ s' = RStart(v', Bg)
Draw ==
  /\ b # <<>>
  /\ ~RDone(v, c.f - 1, c.sel, s)
  /\ s' = RStep(v, im, c.f - 1, c.sel, s)
  /\ UNCHANGED <<c, b, v, im>>
Next == Pick \/ Build \/ Draw
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Finished == b # <<>> /\ (IF b # <<>> THEN RDone(v, c.f - 1, c.sel, s) ELSE FALSE)
\* layers that the view exposes, and a layer's number among them
Exp(l) == StyleOf[c.layers[l]].ty # 2
Place(l) == Cardinality({j \in 1..(l - 1) : Exp(j)}) + 1
Picked(l) ==
  CASE c.sel.k = "All" -> TRUE
    [] c.sel.k = "Visible" -> StyleOf[c.layers[l]].fl % 2 = 1
    [] OTHER -> Place(l) \in DOMAIN c.sel.m /\ (IF Place(l) \in DOMAIN c.sel.m THEN c.sel.m[Place(l)] = 1 ELSE FALSE)
Shown(l) == StyleOf[c.layers[l]].ty = 0 /\ Picked(l)
\* the cel of layer l in the frame, with the size and pixels of its image
Here == c.frames[c.f]
HasCel(l) == \E i \in DOMAIN Here : Here[i].l = l
CelOf(l) == LET x == Here[CHOOSE i \in DOMAIN Here : Here[i].l = l]
                k == IF x.to > 0 THEN x.to ELSE c.f
                y == c.frames[k][CHOOSE i \in DOMAIN c.frames[k] : c.frames[k][i].l = l]
            IN [x |-> x.x, y |-> x.y, w |-> y.w, h |-> y.h, n |-> ImgNo(k, l)]
\* pixel (x, y) of the canvas after layers 1..l
RECURSIVE Pixel(_, _, _)
Pixel(x, y, l) ==
  IF l = 0 THEN Bg[(((y * c.w) + x) % 5) + 1]
  ELSE LET under == Pixel(x, y, l - 1)
           g == CelOf(l)
           dx == x - g.x
           dy == y - g.y
           st == StyleOf[c.layers[l]]
       IN IF ~(Shown(l) /\ HasCel(l)) THEN under
          ELSE IF ~(dx \in 0..(g.w - 1) /\ dy \in 0..(g.h - 1)) THEN under
          ELSE CHOOSE p \in Blend(CASE st.bm = 0 -> "Normal" [] st.bm = 1 -> "Multiply" [] st.bm = 2 -> "Screen",
                                  under, Px(g.n, dy * g.w + dx + 1), st.op) : TRUE
\* can the cel of layer l not be drawn?
Odd(l) == StyleOf[c.layers[l]].bm \in {19, 99} \/ StyleOf[c.layers[l]].cut > 0
Pixels0(l) == HasCel(l) /\ (CelOf(l).w = 0 \/ CelOf(l).h = 0)
Layers == 1..Len(c.layers)
Fails == \E l \in Layers : Shown(l) /\ HasCel(l) /\ Odd(l) /\ ~Pixels0(l)
Unsure == \E l \in Layers : Shown(l) /\ HasCel(l) /\ Odd(l) /\ Pixels0(l)

Right ==
  Finished =>
    /\ (s.st = "err") = Fails
    /\ ~Fails => (s.st = "maybe") = Unsure
    /\ ~Fails => \A i \in 1..(c.w * c.h) : s.cv[i] = { Pixel((i - 1) % c.w, (i - 1) \div c.w, Len(c.layers)) }
\* a step changes nothing outside of the cel it draws
Local == [][b # <<>> /\ s'.st = "draw" =>
             LET g == DrawList(v, c.f - 1, c.sel)[s.k]
             IN \A i \in 1..Len(s.cv) :
                  s'.cv[i] = s.cv[i]
                  \/ ((((i - 1) % v.w) - g.x) \in 0..(g.w - 1) /\ (((i - 1) \div v.w) - g.y) \in 0..(g.h - 1))]_s
Emit == Finished /\ s.st # "maybe" =>
  Show([op |-> "render", in |-> b, f |-> c.f - 1, sel |-> c.sel,
        bg |-> [i \in 1..(c.w * c.h) |-> Bg[((i - 1) % 5) + 1]],
        exp |-> Result(s.st = "draw", [i \in 1..Len(s.cv) |-> CHOOSE p \in s.cv[i] : TRUE])])

----------------------------------------------------------------------------
CoordsQ == (-3..3) \cup {-32768, -32767, 32766, 32767}
CoordsT == (-6..6) \cup {-32768, -32767, -256, -255, 255, 256, 32766, 32767}
CanvasesQ == { <<2, 2>>, <<3, 1>> }
CanvasesT == { <<1, 1>>, <<2, 2>>, <<3, 1>>, <<1, 4>>, <<3, 3>> }
MasksQ == { <<>>, <<1>>, <<0, 1>>, <<1, 0, 1>>, <<0, 1, 1, 1>> }
MasksT == UNION { [1..n -> {0, 1}] : n \in 0..4 }
\* contents of the two slots per frame: 0 an image, -1 none, n a link to frame n
FrameSetsQ == { f \in UNION { [1..n -> {-1, 0, 1, 2} \X {-1, 0, 1}] : n \in 1..2 } :
                \A k \in 1..Len(f) : \A l \in 1..2 :
                  f[k][l] > 0 => f[k][l] <= Len(f) /\ f[IF f[k][l] <= Len(f) THEN f[k][l] ELSE 1][l] = 0 }
FrameSetsT == { f \in UNION { [1..n -> {-1, 0, 1, 2, 3} \X {-1, 0, 1, 3}] : n \in 1..3 } :
                \A k \in 1..Len(f) : \A l \in 1..2 :
                  f[k][l] > 0 => f[k][l] <= Len(f) /\ f[IF f[k][l] <= Len(f) THEN f[k][l] ELSE 1][l] = 0 }
None == {}
=============================================================================
