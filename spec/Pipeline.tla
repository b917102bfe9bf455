------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* From the bytes of a file to what can be seen of it: the container, the  *)
(* assembly of the document, its view and its images, one after another.   *)
(* p is the part that is running, x its state; doc is <<>> for an input    *)
(* that cannot be loaded.                                                  *)
(***************************************************************************)
EXTENDS Container, Loader, Pixels

PStart(b) == [p |-> "container", x |-> CStart(b), raw |-> <<>>, doc |-> <<>>]
PImage(b, d, i) ==
  LET y == d.view.images[i]
  IN IF PixelSize(d.dk) = 0 THEN [st |-> "bad", px |-> <<>>]
     ELSE Decode(d.dk, d.pal, y.w, y.h, y.comp, BN(b, y.data[1], y.data[2]))
\* as pixels
PPixels(r) == [st |-> r.st, px |-> [k \in 1..(Len(r.px) \div 4) |-> SubSeq(r.px, 4 * k - 3, 4 * k)]]
PStep(b, s) ==
  CASE s.p = "container" ->
         IF ~CDone(s.x) THEN [s EXCEPT !.x = CStep(b, @)]
         ELSE IF s.x.st = "err" THEN [s EXCEPT !.p = "end"]
         ELSE [s EXCEPT !.p = "assemble", !.raw = RawFile(s.x), !.x = AStart]
    [] s.p = "assemble" ->
         IF ~ADone(s.raw, s.x) THEN [s EXCEPT !.x = AStep(s.raw, @)]
         ELSE LET r == AResult(s.raw, s.x)
              IN IF ~r.ok THEN [s EXCEPT !.p = "end"]
                 ELSE IF ~LoadOk(r.v) THEN [s EXCEPT !.p = "end"]
                 ELSE [s EXCEPT !.p = "images", !.x = <<>>,
                         !.doc = << [view |-> View(r.v, LAMBDA y : BN(b, y[1], y[2])), imgs |-> <<>>,
                                     dk |-> r.v.hdr.dk, pal |-> IF r.pal = <<>> THEN <<>> ELSE r.pal[1]] >>]
    [] s.p = "images" ->
         LET d == s.doc[1]
             i == Len(d.imgs) + 1
         IN IF i > Len(d.view.images) THEN [s EXCEPT !.p = "end", !.raw = <<>>]
            ELSE [s EXCEPT !.doc[1].imgs = Append(@, PPixels(PImage(b, d, i)))]
PDone(s) == s.p = "end"
=============================================================================
