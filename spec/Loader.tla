------------------------------ MODULE Loader -------------------------------
(***************************************************************************)
(* The high-level view of a document: exposed layers, images, frame cels   *)
(* with resolved links, tags.                                              *)
(***************************************************************************)
EXTENDS Assemble

Exposed(l) == l.lk \in {"Normal", "Group"}
\* 0-based index into the exposed layers
ExposedIndex(layers, k) == Len(SelectSeq(SubSeq(layers, 1, k - 1), Exposed))

\* the cels present, as <<frame, slot>> in order
CelSlots(v) ==
  LET n == Len(v.layers)
      row(f) == SelectSeq([c \in 1..n |-> <<f, c>>], LAMBDA x : v.frames[x[1]].cels[x[2]] # <<>>)
  IN FoldLeft(LAMBDA a, f : a \o row(f), <<>>, [f \in 1..Len(v.frames) |-> f])
CelAt(v, x) == v.frames[x[1]].cels[x[2]][1]
ImageSlots(v) == SelectSeq(CelSlots(v), LAMBDA x : CelAt(v, x).ck = "Image")

\* the slot whose image a cel shows, <<0, 0>> if there is none
Target(v, x) ==
  LET c == CelAt(v, x)
      y == <<c.fp + 1, x[2]>>
  IN CASE c.ck = "Image" -> x
       [] c.ck = "Linked" /\ c.fp < Len(v.frames) ->
            IF v.frames[y[1]].cels[y[2]] # <<>> /\ CelAt(v, y).ck = "Image" THEN y ELSE <<0, 0>>
       [] OTHER -> <<0, 0>>
LoadOk(v) == LET slots == CelSlots(v)
             IN \A k \in 1..Len(slots) : Target(v, slots[k]) # <<0, 0>>

LIndexOf(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
ViewCel(v, imgs, x) ==
  LET c == CelAt(v, x)
      y == Target(v, x)
      i == CelAt(v, y)
  IN [x |-> c.x, y |-> c.y, w |-> i.w, h |-> i.h, l |-> ExposedIndex(v.layers, x[2]),
      i |-> LIndexOf(imgs, y) - 1]
\* names are reported through Name(range)
View(v, Name(_)) ==
  LET slots == CelSlots(v)
      imgs == ImageSlots(v)
      layer(l) == [name |-> Name(l.name), op |-> l.op, bk |-> l.bk, bv |-> l.bv, vis |-> l.vis,
                   lk |-> l.lk, lv |-> l.lv]
      tag(t) == [name |-> Name(t.name), from |-> t.from, to |-> t.to, dk |-> t.dk, dv |-> t.dv,
                 rep |-> IF t.rep = 0 THEN <<>> ELSE <<t.rep>>]
      image(x) == LET c == CelAt(v, x) IN [w |-> c.w, h |-> c.h, data |-> c.data, comp |-> c.comp]
      frame(f) == [dur |-> v.frames[f].dur, ox |-> 0, oy |-> 0,
                   cels |-> LET mine == SelectSeq(slots, LAMBDA x : x[1] = f /\ Exposed(v.layers[x[2]]))
                            IN [k \in 1..Len(mine) |-> ViewCel(v, imgs, mine[k])]]
  IN [w |-> v.hdr.w, h |-> v.hdr.h, layers |-> Map(layer, SelectSeq(v.layers, Exposed)),
      frames |-> [f \in 1..Len(v.frames) |-> frame(f)], tags |-> Map(tag, v.tags),
      images |-> Map(image, imgs), nimg |-> Len(imgs), slices |-> v.slices]
=============================================================================
