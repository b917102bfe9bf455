------------------------------- MODULE MCImage -------------------------------
(***************************************************************************)
(* One image of every color depth, stored raw or compressed, with data of  *)
(* the right and of wrong lengths, read into buffers of every relevant     *)
(* size.  The file is decoded by the other modules; the account speaks of  *)
(* the bytes that were meant.                                              *)
(***************************************************************************)
EXTENDS Container, Loader, Pixels, Deflate, Encode

CONSTANTS DEPTHS, DIMS, PACKS, DELTAS, BUFS, FILLS, TIS, PALS

VARIABLES c,        \* [d, w, h, pack, delta, buf, fill, ti, pal]
          b, v, r   \* file, view, result of decoding the image
vars == <<c, b, v, r>>

Bpp(d) == CASE d = 32 -> 4 [] d = 16 -> 2 [] OTHER -> 1
\* stored bytes; indices reach beyond the colors of the palette and to its ends
Byte(d, k) == CASE d = 32 -> (41 * k + 7) % 256 [] d = 16 -> (77 * k + 3) % 256
                [] OTHER -> <<0, 1, 2, 255, 3, 128, 17>>[((k - 1) % 7) + 1]
Need(x) == x.w * x.h * Bpp(x.d)
Data(x) == [k \in 1..(Need(x) + x.delta) |-> Byte(x.d, k)]
Chop(d, n) == IF Len(d) <= n THEN <<d>> ELSE << SubSeq(d, 1, n), SubSeq(d, n + 1, Len(d)) >>
Lit(k, d) == [k |-> k, t |-> [i \in 1..Len(d) |-> <<d[i]>>], ll |-> FixedLit, dl |-> FixedDist, h |-> <<>>]
Packed(x) ==
  LET d == Data(x)
      z(bs) == ZipUp(bs)
      n == Len(z(<<Lit("fixed", d)>>))
  IN CASE x.pack \in {"raw", "nopal"} -> d
       [] x.pack = "stored" -> z(<<Lit("stored", d)>>)
       [] x.pack = "two"    -> z(<<Lit("stored", Chop(d, 3)[1]), Lit("fixed", SubSeq(d, 4, Len(d)))>>)
       [] x.pack = "fixed"  -> z(<<Lit("fixed", d)>>)
       [] x.pack = "trail"  -> z(<<Lit("fixed", d)>>) \o <<1, 2, 3, 4, 5>>
       [] x.pack = "cut"    -> SubSeq(z(<<Lit("fixed", d)>>), 1, n - 1)
       [] x.pack = "sum"    -> [z(<<Lit("fixed", d)>>) EXCEPT ![n] = (@ + 1) % 256]
       [] x.pack = "none"   -> <<>>
       [] x.pack = "plain"  -> d
IsRaw(x) == x.pack = "raw"
Fine(x) == x.delta = 0 /\ x.pack \in {"raw", "stored", "two", "fixed", "trail"}
BufLen(x) == LET n == 4 * x.w * x.h IN
  CASE x.buf = "empty" -> 0 [] x.buf = "less" -> MaxOf(n - 1, 0) [] x.buf = "exact" -> n [] x.buf = "one" -> n + 1 [] x.buf = "more" -> n + 9
\* colors of the palette: those from the first on; the others are black and transparent
Color(i) == << (53 * i + 1) % 256, (97 * i + 2) % 256, (11 * i + 3) % 256, <<255, 128, 0, 1>>[(i % 4) + 1] >>
PalOf(x, i) ==
  LET from == x.pal[1]
      to == x.pal[2]
      e == IF i >= from /\ i <= to THEN Color(i) ELSE <<0, 0, 0, 0>>
  IN IF i = x.ti THEN <<e[1], e[2], e[3], 0>> ELSE e
PalChunk(x) == EPalette(x.pal[2] + 1, x.pal[1], [i \in 1..(x.pal[2] - x.pal[1] + 1) |-> Color(x.pal[1] + i - 1)])
File(x) ==
  EHeader(9, 9, x.d, x.ti) \o
  EFrame(1, << ELayer(1, 0, 0, 255, <<76>>) >>
            \o (IF x.d \in {8, 16} THEN <<PalChunk(x)>> ELSE <<>>)   \* of no account in a grayscale file
            \o << IF IsRaw(x) THEN ERaw(0, 0, 0, x.w, x.h, Packed(x)) ELSE EZip(0, 0, 0, x.w, x.h, Packed(x)) >>)

All == { x \in [d : DEPTHS, w : DIMS, h : DIMS, pack : PACKS, delta : DELTAS, buf : BUFS, fill : FILLS, ti : TIS, pal : PALS] :
           /\ Need(x) + x.delta >= 0
           /\ x.d = 8 \/ (x.pal = CHOOSE p \in PALS : TRUE)
           /\ x.d = 8 \/ (x.ti = CHOOSE t \in TIS : TRUE)
           /\ x.delta = 0 \/ x.pack \in {"raw", "stored", "fixed"}
           \* nothing is said of compressed images without pixels
           /\ x.w * x.h > 0 \/ IsRaw(x) }
Init == c = <<>> /\ b = <<>> /\ v = <<>> /\ r = <<>>
Pick == c = <<>> /\ (\E x \in All : c' = x) /\ UNCHANGED <<b, v, r>>
Build ==
  /\ c # <<>> /\ b = <<>>
  /\ c' = c
  /\ b' = File(c)
  /\ LET raw == RawFile(CRun(b'))
         a == AResult(raw, ARun(raw))
         w == View(a.v, LAMBDA x : BN(b', x[1], x[2]))
         g == w.images[1]
     IN /\ LoadOk(a.v)
        /\ v' = w
        /\ r' = IF a.v.hdr.dk = "Unknown" THEN [st |-> "depth", px |-> <<>>]
                ELSE Decode(a.v.hdr.dk, IF a.pal = <<>> THEN <<>> ELSE a.pal[1], g.w, g.h, g.comp, BN(b', g.data[1], g.data[2]))
Next == Pick \/ Build
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Built == b # <<>>
Rgba(x, k) ==   \* pixel k
  LET d(i) == Byte(x.d, i)
  IN CASE x.d = 32 -> << d(4 * k - 3), d(4 * k - 2), d(4 * k - 1), d(4 * k) >>
       [] x.d = 16 -> << d(2 * k - 1), d(2 * k - 1), d(2 * k - 1), d(2 * k) >>
       [] OTHER -> PalOf(x, d(k))
Right == Built =>
  /\ v.nimg = 1 /\ v.images[1].w = c.w /\ v.images[1].h = c.h
  /\ IF c.d \notin {8, 16, 32} THEN r.st = "depth"
     ELSE IF Fine(c) THEN r.st = "ok" /\ r.px = Cat([k \in 1..(c.w * c.h) |-> Rgba(c, k)])
     ELSE r.st = "bad"
\* the result of reading it into the buffer
Small == BufLen(c) < 4 * c.w * c.h
Result1 ==
  IF Small THEN [st |-> "err", r |-> <<"small", 0>>]
  ELSE IF r.st = "depth" THEN [st |-> "err", r |-> <<"depth", 0>>]
  ELSE IF r.st = "bad" THEN [st |-> "err", r |-> <<"data", 0>>]
  ELSE [st |-> "ok", r |-> << [k \in 1..BufLen(c) |-> IF k <= Len(r.px) THEN r.px[k] ELSE Prefill(c.fill, k)] >>]
Emit == Built => Show([op |-> "image", in |-> b, i |-> 0, n |-> BufLen(c), fill |-> c.fill, exp |-> Result1])
PalsS == { <<0, 2>>, <<1, 255>> }
DeltasS == {-4, -1, 0, 1}
PalsQ == { <<0, 2>>, <<1, 255>>, <<3, 3>> }
DeltasQ == {-4, -2, -1, 0, 1, 2, 4}
=============================================================================
