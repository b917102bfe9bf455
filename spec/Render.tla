------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Rendering a frame: the canvas is a sequence of sets of acceptable       *)
(* pixels, row by row; one step per drawn cel, in ascending layer order.   *)
(* A view v has w, h, layers (op, bk, vis, lk) and frames (cels with       *)
(* x, y, w, h, l, i); imgs[i + 1] has st and px.                           *)
(***************************************************************************)
EXTENDS Blend, TLC

Selected(v, sel, l) ==
  CASE sel.k = "Visible" -> v.layers[l + 1].vis = 1
    [] sel.k = "All"     -> TRUE
    [] sel.k = "Mask"    -> IF l + 1 <= Len(sel.m) THEN sel.m[l + 1] = 1 ELSE FALSE
Drawn(v, sel, c) == v.layers[c.l + 1].lk # "Group" /\ Selected(v, sel, c.l)
\* the cels to draw, bottom to top
DrawList(v, f, sel) == SortSeq(SelectSeq(v.frames[f + 1].cels, LAMBDA c : Drawn(v, sel, c)),
                               LAMBDA a, b : a.l < b.l)
\* does the cel cover a pixel of the canvas?
Covers(v, c) == c.w > 0 /\ c.h > 0 /\ c.x < v.w /\ c.y < v.h /\ c.x + c.w > 0 /\ c.y + c.h > 0

RBg(bg, i) == IF Len(bg) = 1 THEN bg[1] ELSE bg[((i - 1) % Len(bg)) + 1]
RStart(v, bg) == [st |-> "draw", k |-> 1, cv |-> [i \in 1..(v.w * v.h) |-> {RBg(bg, i)}]]

\* draw one cel
DrawCel(v, imgs, c, cv) ==
  LET px == imgs[c.i + 1].px
      ly == v.layers[c.l + 1]
  IN [i \in 1..Len(cv) |->
        LET x == ((i - 1) % v.w) - c.x
            y == ((i - 1) \div v.w) - c.y
        IN IF x < 0 \/ x >= c.w \/ y < 0 \/ y >= c.h THEN cv[i]
           ELSE UNION { Blend(ly.bk, B, px[y * c.w + x + 1], ly.op) : B \in cv[i] }]

\* A cel that cannot be drawn is an error, wherever it lies; a cel without pixels
\* may be one ("maybe" continues without it).
Undrawable(v, imgs, c) == imgs[c.i + 1].st # "ok" \/ v.layers[c.l + 1].bk = "Unknown"
RStep(v, imgs, f, sel, s) ==
  LET d == DrawList(v, f, sel)
      c == d[s.k]
  IN IF Undrawable(v, imgs, c) THEN
            IF c.w > 0 /\ c.h > 0 THEN [s EXCEPT !.st = "err"] ELSE [s EXCEPT !.k = @ + 1, !.st = "maybe"]
     ELSE [s EXCEPT !.k = @ + 1, !.cv = IF Covers(v, c) THEN DrawCel(v, imgs, c, @) ELSE @]
RDone(v, f, sel, s) == s.st = "err" \/ s.k > Len(DrawList(v, f, sel))
RRun(v, imgs, f, sel, bg) ==
  FoldLeft(LAMBDA s, i : IF RDone(v, f, sel, s) THEN s ELSE RStep(v, imgs, f, sel, s),
           RStart(v, bg), [i \in 1..Len(v.frames[f + 1].cels) |-> i])
=============================================================================
