----------------------------- MODULE Assemble ------------------------------
(***************************************************************************)
(* From the chunks of the frames to the document: one step per chunk.      *)
(*                                                                         *)
(* own is the owner of a user data chunk, should one follow immediately:   *)
(*   [k |-> "none" | "sprite" | "layer" | "cel" | "slice" | "tags", i]     *)
(* (i is the next tag).  Layers, tags and slices accumulate over all       *)
(* frames; the cels of a frame find their slot at the end, when the number *)
(* of layers is known.                                                     *)
(***************************************************************************)
EXTENDS Palette

NoOwner == [k |-> "none", i |-> 0]
AStart == [f |-> 1, c |-> 1, layers |-> <<>>, cels |-> <<>>, done |-> <<>>, tags |-> <<>>,
           slices |-> <<>>, ud |-> <<>>, own |-> NoOwner, pal |-> PalStart]

IsPalette(c) == c.t \in {"Palette", "Palette0004", "Palette0011"}

\* the user data chunk u arrives
Attach(s, u) ==
  LET o == s.own
      last(x) == [x EXCEPT ![Len(x)].ud = <<u>>]
  IN CASE o.k = "none"   -> s
       [] o.k = "sprite" -> [s EXCEPT !.ud = <<u>>, !.own = NoOwner]
       [] o.k = "layer"  -> [s EXCEPT !.layers = last(@), !.own = NoOwner]
       [] o.k = "cel"    -> [s EXCEPT !.cels = last(@), !.own = NoOwner]
       [] o.k = "slice"  -> [s EXCEPT !.slices = last(@), !.own = NoOwner]
       [] o.k = "tags"   -> [s EXCEPT !.tags[o.i].ud = <<u>>,
                                      !.own = IF o.i < Len(s.tags) THEN [o EXCEPT !.i = @ + 1] ELSE NoOwner]
Owner(s, c) ==
  CASE c.t = "Layer" -> [k |-> "layer", i |-> 0]
    [] c.t = "Cel"   -> [k |-> "cel", i |-> 0]
    [] c.t = "Slice" -> [k |-> "slice", i |-> 0]
    [] c.t = "Tags" /\ c.tags # <<>> -> [k |-> "tags", i |-> Len(s.tags) + 1]
    [] IsPalette(c) /\ s.f = 1 /\ s.ud = <<>> -> [k |-> "sprite", i |-> 0]
    [] OTHER -> NoOwner
Accept(s, c) ==
  LET s1 == CASE c.t = "Layer" -> [s EXCEPT !.layers = Append(@, c)]
              [] c.t = "Cel"   -> [s EXCEPT !.cels = Append(@, c)]
              [] c.t = "Slice" -> [s EXCEPT !.slices = Append(@, c)]
              [] c.t = "Tags"  -> [s EXCEPT !.tags = @ \o c.tags]
              [] IsPalette(c)  -> [s EXCEPT !.pal = PalStep(@, c)]
              [] OTHER -> s
  IN [s1 EXCEPT !.own = Owner(s, c)]

AChunk(s, c) == IF c.t = "UserData" THEN Attach(s, c) ELSE Accept(s, c)
AEndFrame(s, dur) ==
  [s EXCEPT !.done = Append(@, [dur |-> dur, cels |-> s.cels]), !.cels = <<>>, !.own = NoOwner,
            !.f = @ + 1, !.c = 1]
ADone(raw, s) == s.f > Len(raw.frames)
AStep(raw, s) ==
  LET fr == raw.frames[s.f]
  IN IF s.c > Len(fr.chunks) THEN AEndFrame(s, fr.dur)
     ELSE [AChunk(s, fr.chunks[s.c]) EXCEPT !.c = @ + 1]

----------------------------------------------------------------------------
\* slots of a frame: the last cel of each layer
Slots(cels, n) == FoldLeft(LAMBDA a, c : [a EXCEPT ![c.li + 1] = <<c>>], [i \in 1..n |-> <<>>], cels)
BadLayer(s) == \E f \in 1..Len(s.done) : \E c \in 1..Len(s.done[f].cels) :
                  s.done[f].cels[c].li >= Len(s.layers)
\* [ok, v, pal]: the document without its palette, and the palette
AResult(raw, s) ==
  LET idx == raw.hdr.dk = "Indexed"
      p   == PalResult(s.pal, raw.hdr.ti)
  IN IF (idx /\ ~p.ok) \/ BadLayer(s) THEN [ok |-> FALSE, v |-> <<>>, pal |-> <<>>]
     ELSE [ok |-> TRUE, pal |-> IF idx THEN <<p.col>> ELSE <<>>,
           v |-> [hdr |-> raw.hdr, layers |-> s.layers,
                  frames |-> [f \in 1..Len(s.done) |->
                     [dur |-> s.done[f].dur, cels |-> Slots(s.done[f].cels, Len(s.layers))]],
                  tags |-> s.tags, slices |-> s.slices, ud |-> s.ud]]
\* the whole run at once
ASize(raw) == FoldLeft(LAMBDA a, f : a + Len(f.chunks) + 1, 0, raw.frames)
ARun(raw) == FoldLeft(LAMBDA s, i : AStep(raw, s), AStart, [i \in 1..ASize(raw) |-> i])

----------------------------------------------------------------------------
\* The two aspects of a document: its elements, and what is attached to them.
Bare(x) == [x EXCEPT !.ud = <<>>]
MapCels(g(_), frames) ==
  [f \in 1..Len(frames) |-> [frames[f] EXCEPT !.cels =
     [c \in 1..Len(@) |-> IF @[c] = <<>> THEN <<>> ELSE <<g(@[c][1])>>]]]
Elements(v) ==
  [hdr |-> v.hdr, layers |-> Map(Bare, v.layers), tags |-> Map(Bare, v.tags),
   slices |-> Map(Bare, v.slices), frames |-> MapCels(Bare, v.frames)]
UdOf(x) == x.ud
Attached(v) ==
  [ud |-> v.ud, layers |-> Map(UdOf, v.layers), tags |-> Map(UdOf, v.tags),
   slices |-> Map(UdOf, v.slices),
   cels |-> [f \in 1..Len(v.frames) |-> MapCels(UdOf, v.frames)[f].cels]]
=============================================================================
