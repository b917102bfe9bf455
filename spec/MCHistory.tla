----------------------------- MODULE MCHistory ------------------------------
(***************************************************************************)
(* Histories of calls on two loaded files that share one buffer, and on a  *)
(* third whose bytes lie in memory that is overwritten by another file and *)
(* loaded again: the result of a call is a function of the file, the       *)
(* arguments and the content of the buffer, whatever was called before.    *)
(* All histories of DEPTH calls.                                           *)
(***************************************************************************)
EXTENDS Container, Loader, Pixels, Render, Deflate, Encode

CONSTANT DEPTH

\* slot: which of FileA and FileC is in the memory that is used again
VARIABLES calls, buf, outs, slot
vars == <<calls, buf, outs, slot>>

Lit(k, d) == [k |-> k, t |-> [i \in 1..Len(d) |-> <<d[i]>>], ll |-> FixedLit, dl |-> FixedDist, h |-> <<>>]
P1 == [k \in 1..16 |-> (59 * k + 7) % 256]
P2 == [k \in 1..24 |-> (83 * k + 101) % 256]
\* two layers in RGBA, one of them compressed; the second frame links to the first
Doc(p1, p2, v, op) == EHeader(2, 2, 32, 0)
  \o EFrame(10, << ELayer(1, 0, 0, 255, <<97>>), ELayer(0, 0, 1, op, <<98>>), ELayer(1, 1, 0, 255, <<98>>),
                   ERaw(0, 0, 0, 2, 2, p1), EZip(1, 1, -1, 2, 3, ZipUp(<<Lit("stored", p2)>>)) >>)
  \o EFrame(20, << ELink(0, -1, 1, 0), EZip(1, 0, 1, 1, 1, ZipUp(<<Lit("fixed", <<9, 8, 7, v>>)>>)) >>)
FileA == Doc(P1, P2, 200, 128)
\* of the same layout, but of other content
FileC == Doc([k \in 1..16 |-> (P1[k] + 91) % 256], [k \in 1..24 |-> (P2[k] + 33) % 256], 220, 77)
ASSUME Len(FileA) = Len(FileC)
\* one indexed layer, larger and compressed, and a damaged image outside the canvas
FileB == EHeader(2, 2, 8, 1)
  \o EFrame(10, << EPalette(4, 0, << <<1, 2, 3, 255>>, <<4, 5, 6, 255>>, <<7, 8, 9, 128>>, <<10, 11, 12, 255>> >>),
                   ELayer(1, 0, 0, 255, <<97>>), ELayer(1, 0, 4, 200, <<99>>),
                   EZip(0, -1, -1, 3, 3, ZipUp(<<Lit("fixed", <<0, 1, 2, 3, 2, 1, 0, 3, 9>>)>>)),
                   EZip(1, 0, 0, 2, 2, SubSeq(ZipUp(<<Lit("fixed", <<3, 3, 3, 3>>)>>), 1, 9)) >>)
DocOf(b) == LET raw == RawFile(CRun(b)) IN AResult(raw, ARun(raw))
ViewOf(b, d) == View(d.v, LAMBDA x : BN(b, x[1], x[2]))
ImagesOf(b, d, w) == [i \in 1..w.nimg |->
  LET g == w.images[i]
      r == Decode(d.v.hdr.dk, IF d.pal = <<>> THEN <<>> ELSE d.pal[1], g.w, g.h, g.comp, BN(b, g.data[1], g.data[2]))
  IN [st |-> r.st, px |-> [k \in 1..(Len(r.px) \div 4) |-> SubSeq(r.px, 4 * k - 3, 4 * k)]]]
DA == DocOf(FileA)
DB == DocOf(FileB)
VA == ViewOf(FileA, DA)
VB == ViewOf(FileB, DB)
IA == ImagesOf(FileA, DA, VA)
IB == ImagesOf(FileB, DB, VB)
DC == DocOf(FileC)
VC == ViewOf(FileC, DC)
IC == ImagesOf(FileC, DC, VC)
\* f = 2: the file in the memory that is used again
Vw(f, sl) == CASE f = 1 -> VB [] f = 0 \/ sl = 0 -> VA [] OTHER -> VC
Im(f, sl) == CASE f = 1 -> IB [] f = 0 \/ sl = 0 -> IA [] OTHER -> IC

\* calls: [c: "render" | "image" | "fill" | "load", f: file, a: frame, image or value, n: pixels of the buffer that are passed, sel]
Ca(k, f, a, n, sel) == [c |-> k, f |-> f, a |-> a, n |-> n, sel |-> sel]
SelV == [k |-> "Visible", m |-> <<>>]
SelA == [k |-> "All", m |-> <<>>]
SelM(m) == [k |-> "Mask", m |-> m]
SelN(names) == [k |-> "Name", m |-> names]
Calls == { Ca("render", 0, 0, 4, SelV), Ca("render", 0, 0, 9, SelA), Ca("render", 0, 1, 4, SelA),
           Ca("render", 0, 1, 4, SelN(<< <<98>>, <<120>> >>)), Ca("render", 1, 0, 4, SelN(<< <<97>> >>)),
           Ca("render", 1, 0, 4, SelM(<<1>>)), Ca("render", 1, 0, 3, SelM(<<1>>)), Ca("render", 1, 0, 4, SelA),
           Ca("image", 0, 1, 9, SelV), Ca("image", 0, 2, 4, SelV), Ca("image", 1, 0, 9, SelV), Ca("image", 1, 0, 8, SelV),
           Ca("image", 1, 1, 4, SelV),
           Ca("fill", 0, 0, 9, SelV), Ca("load", 2, 0, 9, SelV), Ca("load", 2, 1, 9, SelV),
           Ca("render", 2, 0, 4, SelA), Ca("render", 2, 1, 4, SelV), Ca("image", 2, 1, 9, SelV) }
\* selection by names as a mask
Resolve(v, sel) ==
  IF sel.k # "Name" THEN sel
  ELSE SelM([l \in 1..Len(v.layers) |-> IF \E i \in 1..Len(sel.m) : sel.m[i] = v.layers[l].name THEN 1 ELSE 0])
Fill == [i \in 1..9 |-> <<100 + i, 50 + 9 * i, 7 * i, (37 * i) % 256>>]
\* [st, buf]: on errors about the data the part of the buffer that belongs to the
\* result is unknown: it is filled anew
Do(q, bf, sl) ==
  LET v == Vw(q.f, sl)
      im == Im(q.f, sl)
      need == IF q.c = "load" THEN 0 ELSE IF q.c = "render" THEN v.w * v.h ELSE v.images[q.a + 1].w * v.images[q.a + 1].h
      put(px) == [i \in 1..9 |-> IF i <= Len(px) THEN px[i] ELSE bf[i]]
      bad == [st |-> "data", buf |-> Fill]
  IN CASE q.c = "fill"   -> [st |-> "ok", buf |-> Fill]
       [] q.c = "load"   -> [st |-> "ok", buf |-> bf]
       [] q.n < need     -> [st |-> "small", buf |-> bf]
       [] q.c = "image"  -> IF im[q.a + 1].st = "ok" THEN [st |-> "ok", buf |-> put(im[q.a + 1].px)] ELSE bad
       [] q.c = "render" ->
            LET s == RRun(v, im, q.a, Resolve(v, q.sel), SubSeq(bf, 1, need))
            IN IF s.st = "draw" THEN [st |-> "ok", buf |-> put([i \in 1..need |-> CHOOSE p \in s.cv[i] : TRUE])] ELSE bad

Init == calls = <<>> /\ buf = Fill /\ outs = <<>> /\ slot = 0
Next == /\ Len(calls) < DEPTH
        /\ \E q \in Calls :
             LET r == Do(q, buf, slot)
             IN /\ calls' = Append(calls, q)
                /\ buf' = r.buf
                /\ outs' = Append(outs, r)
                /\ slot' = IF q.c = "load" THEN q.a ELSE slot
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* a call that fails for lack of room changes nothing; no call writes behind its result
Bounded == [][LET q == calls'[Len(calls')]
                  r == outs'[Len(outs')]
              IN /\ r.st = "small" => buf' = buf
                 /\ r.st = "ok" /\ q.c # "fill" => \A i \in (q.n + 1)..9 : buf'[i] = buf[i]]_vars
\* what is in the memory that is used again before call i
RECURSIVE SlotAt(_)
SlotAt(i) == IF i = 1 THEN 0 ELSE IF calls[i - 1].c = "load" THEN calls[i - 1].a ELSE SlotAt(i - 1)
SameFile(i, j) == calls[i].f # 2 \/ SlotAt(i) = SlotAt(j)
\* loading an image forgets what was there; rendering keeps what is not covered
Loaded == \A i \in 1..Len(calls) : \A j \in 1..Len(calls) :
  (calls[i] = calls[j] /\ calls[i].c = "image" /\ outs[i].st = "ok" /\ SameFile(i, j)) =>
     LET g == Vw(calls[i].f, SlotAt(i)).images[calls[i].a + 1] IN SubSeq(outs[i].buf, 1, g.w * g.h) = SubSeq(outs[j].buf, 1, g.w * g.h)
\* the same call on the same buffer
Repeatable == \A i \in 1..Len(calls) : \A j \in 1..Len(calls) :
  LET before(k) == IF k = 1 THEN Fill ELSE outs[k - 1].buf
  IN calls[i] = calls[j] /\ before(i) = before(j) /\ SameFile(i, j) => outs[i] = outs[j]
Emit == Len(calls) = DEPTH =>
  Show([op |-> "seq", in |-> <<>>, files |-> <<FileA, FileB>>, slots |-> <<FileA, FileC>>, fill |-> Fill, calls |-> calls,
        exp |-> [st |-> "ok", r |-> <<outs>>]])
=============================================================================
