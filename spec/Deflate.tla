------------------------------ MODULE Deflate -------------------------------
(***************************************************************************)
(* An encoder of zlib streams from lists of blocks of tokens, written from *)
(* RFC 1950 and 1951 independently of Inflate.  A token is a byte or a     *)
(* pair <<length, distance>>; it says what comes out (Expand).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* least significant bit first, and codes most significant bit first
LsbBits(v, n) == [i \in 1..n |-> (v \div 2^(i - 1)) % 2]
MsbBits(v, n) == [i \in 1..n |-> (v \div 2^(n - i)) % 2]
CatBits(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
\* pad to a byte with bit x
PadBits(bs, x) == bs \o [i \in 1..((8 - (Len(bs) % 8)) % 8) |-> x]
BytesOf(bs) == [k \in 1..(Len(bs) \div 8) |->
  FoldLeft(LAMBDA a, i : a + bs[8 * (k - 1) + i] * 2^(i - 1), 0, [i \in 1..8 |-> i])]
BitsOf(b) == CatBits([k \in 1..Len(b) |-> LsbBits(b[k], 8)])

\* the code of symbol s (a position of lens): its predecessors in the order by
\* length and symbol use up the codes before it
CodeOf(lens, s) ==
  FoldLeft(LAMBDA a, t : IF lens[t] # 0 /\ (lens[t] < lens[s] \/ (lens[t] = lens[s] /\ t < s))
                         THEN a + 2^(lens[s] - lens[t]) ELSE a, 0, [t \in 1..Len(lens) |-> t])
\* a code: the bits of every symbol
Code(lens) == [s \in 1..Len(lens) |-> MsbBits(CodeOf(lens, s), lens[s])]
HuffBits(code, sym) == code[sym + 1]

\* length and distance classes: <<symbol, extra bits, value of them>>
LenClass(n) ==
  IF n = 258 THEN <<285, 0, 0>>
  ELSE IF n <= 10 THEN <<254 + n, 0, 0>>
  ELSE LET e == CHOOSE e \in 1..5 : n - 3 >= 2^(e + 2) /\ n - 3 < 2^(e + 3)
           m == (n - 3) - 2^(e + 2)
       IN <<261 + (4 * e) + (m \div 2^e), e, m % 2^e>>
DistClass(d) ==
  IF d <= 4 THEN <<d - 1, 0, 0>>
  ELSE LET e == CHOOSE e \in 1..13 : d - 1 >= 2^(e + 1) /\ d - 1 < 2^(e + 2)
           m == (d - 1) - 2^(e + 1)
       IN <<2 + (2 * e) + (m \div 2^e), e, m % 2^e>>

PairBits(ll, dl, n, d) ==
  LET a == LenClass(n)
      b == DistClass(d)
  IN HuffBits(ll, a[1]) \o LsbBits(a[3], a[2]) \o HuffBits(dl, b[1]) \o LsbBits(b[3], b[2])

FixedLens == [k \in 1..288 |-> IF k <= 144 THEN 8 ELSE IF k <= 256 THEN 9 ELSE IF k <= 280 THEN 7 ELSE 8]
FixedLit == Code(FixedLens)
FixedDist == Code([k \in 1..30 |-> 5])

\* The code lengths in a dynamic block: every symbol 0..15 of the code length
\* code has 4 bits, or, with rle, 0..12, 16, 17, 18
ClLens(rle) == IF rle THEN [k \in 1..19 |-> IF k <= 13 \/ k >= 17 THEN 4 ELSE 0]
               ELSE [k \in 1..19 |-> IF k <= 16 THEN 4 ELSE 0]
ClCodeRle == Code(ClLens(TRUE))
ClCodePlain == Code(ClLens(FALSE))
ClOrder0 == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>
\* length of the run of equal values at k
RECURSIVE RunAt(_, _)
RunAt(ls, k) == IF k < Len(ls) /\ (IF k < Len(ls) THEN ls[k + 1] = ls[k] ELSE FALSE) THEN 1 + RunAt(ls, k + 1) ELSE 1
RECURSIVE Rle(_, _)
Rle(ls, k) ==
  IF k > Len(ls) THEN <<>>
  ELSE LET r0 == RunAt(ls, k)
           r == IF r0 > 138 THEN 138 ELSE r0
           cl == ClCodeRle
       IN IF ls[k] = 0 /\ r >= 11 THEN HuffBits(cl, 18) \o LsbBits(r - 11, 7) \o Rle(ls, k + r)
          ELSE IF ls[k] = 0 /\ r >= 3 THEN HuffBits(cl, 17) \o LsbBits(r - 3, 3) \o Rle(ls, k + r)
          ELSE IF r >= 4 THEN LET m == IF r > 7 THEN 6 ELSE r - 1
                              IN HuffBits(cl, ls[k]) \o HuffBits(cl, 16) \o LsbBits(m - 3, 2) \o Rle(ls, k + m + 1)
          ELSE HuffBits(cl, ls[k]) \o Rle(ls, k + 1)
DynHeader(ll, dl, rle) ==
  LET cl == ClLens(rle)
      all == ll \o dl
  IN LsbBits(Len(ll) - 257, 5) \o LsbBits(Len(dl) - 1, 5) \o LsbBits(15, 4)
     \o CatBits([i \in 1..19 |-> LsbBits(cl[ClOrder0[i] + 1], 3)])
     \o (IF rle THEN Rle(all, 1) ELSE CatBits([i \in 1..Len(all) |-> HuffBits(ClCodePlain, all[i])]))

\* Blocks: [k: "stored" | "fixed" | "dyn" | "rle", t: tokens as <<byte>> or
\* <<length, distance>>, ll, dl: codes, h: header of a dynamic block]
BodyBits(ll, dl, ts) ==
  CatBits([i \in 1..Len(ts) |-> IF Len(ts[i]) = 1 THEN HuffBits(ll, ts[i][1]) ELSE PairBits(ll, dl, ts[i][1], ts[i][2])])
  \o HuffBits(ll, 256)
BlockBits(before, x, final) ==
  LET h == <<final>>
  IN CASE x.k = "stored" -> PadBits(before \o h \o <<0, 0>>, 0)
                            \o LET d == [i \in 1..Len(x.t) |-> x.t[i][1]]
                               IN LsbBits(Len(d), 16) \o LsbBits(65535 - Len(d), 16) \o BitsOf(d)
       [] x.k = "fixed"  -> before \o h \o <<1, 0>> \o BodyBits(FixedLit, FixedDist, x.t)
       [] OTHER -> before \o h \o <<0, 1>> \o x.h \o BodyBits(x.ll, x.dl, x.t)
\* bits of all blocks (the header of the stream is whole bytes)
StreamBits(xs, lastfinal) ==
  FoldLeft(LAMBDA a, i : BlockBits(a, xs[i], IF i = Len(xs) THEN lastfinal ELSE 0), <<>>, [i \in 1..Len(xs) |-> i])

\* what comes out of tokens
Expand(out, ts) ==
  FoldLeft(LAMBDA a, t : IF Len(t) = 1 THEN Append(a, t[1])
                         ELSE FoldLeft(LAMBDA o, i : Append(o, o[Len(o) - t[2] + 1]), a, [i \in 1..t[1] |-> i]),
           out, ts)
ExpandAll(xs) == FoldLeft(LAMBDA a, x : Expand(a, x.t), <<>>, xs)
\* Adler-32 <<a, b>>: b sums the prefixes
SumOf(d) == LET n == Len(d)
                s1 == FoldLeft(LAMBDA a, x : a + x, 1, d)
                s2 == FoldLeft(LAMBDA a, i : (a + (n - i + 1) * d[i]) % 65521, n, [i \in 1..n |-> i])
            IN <<s1 % 65521, s2>>
\* the bits of the blocks between header and checksum
ZBits(cmf, flg, bits, pad, sum) ==
  <<cmf, flg>> \o BytesOf(PadBits(bits, pad))
  \o <<sum[2] \div 256, sum[2] % 256, sum[1] \div 256, sum[1] % 256>>
ZipUp(xs) == ZBits(120, 156, StreamBits(xs, 1), 0, SumOf(ExpandAll(xs)))
=============================================================================
