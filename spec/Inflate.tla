------------------------------ MODULE Inflate ------------------------------
(***************************************************************************)
(* zlib streams (RFC 1950, RFC 1951), as a machine that reads one deflate  *)
(* block per step.                                                         *)
(*   [st |-> "block" | "ok" | "bad" | "either", p |-> bit position, out]   *)
(* "bad": every correct decoder rejects the stream.  "either": decoders    *)
(* differ on such streams (incomplete codes, header oddities).             *)
(* Decoding stops early, with st = "long", when more than lim bytes have   *)
(* been produced: the result is then an error whatever follows.            *)
(***************************************************************************)
EXTENDS Bytes, TLC

\* n bits at bit position p, least significant first
Bits(z, p, n) ==
  LET byte(k) == IF k < Len(z) THEN z[k + 1] ELSE 0
      k == p \div 8
      w == byte(k) + 256 * byte(k + 1) + 65536 * byte(k + 2)
  IN (w \div 2^(p % 8)) % 2^n
BitLen(z) == 8 * Len(z)

IStop(s, st) == [s EXCEPT !.st = st]
IStart(z) ==
  LET s == [st |-> "block", p |-> 16, out |-> <<>>]
  IN IF Len(z) < 2 THEN IStop(s, "bad")
     ELSE IF z[1] % 16 # 8 \/ (256 * z[1] + z[2]) % 31 # 0 THEN IStop(s, "bad")
     ELSE IF z[1] \div 16 > 7 \/ Bit(z[2], 5) = 1 THEN IStop(s, "either")
     ELSE s

----------------------------------------------------------------------------
\* Canonical Huffman codes from code lengths (1-based sequence; symbol k - 1)
\* [cnt: codes of each length 1..15, off: first position of each length in
\*  sym, sym: symbols in code order, left: unused codes (negative: too many)]
Huff(lens) ==
  LET cnt == [l \in 1..15 |-> Len(SelectSeq(lens, LAMBDA x : x = l))]
      off == FoldLeft(LAMBDA a, l : Append(a, a[l] + cnt[l]), <<0>>, [l \in 1..15 |-> l])
      of(l) == SelectSeq([k \in 1..Len(lens) |-> k], LAMBDA k : lens[k] = l)
      sym == FoldLeft(LAMBDA a, l : a \o of(l), <<>>, [l \in 1..15 |-> l])
      left == FoldLeft(LAMBDA a, l : 2 * a - cnt[l], 1, [l \in 1..15 |-> l])
  IN [cnt |-> cnt, off |-> off, sym |-> sym, left |-> left]

\* next symbol at p: [s |-> symbol or -1, p |-> position after it]
Sym(z, p, h) ==
  LET step(a, l) ==
        IF a.s # -2 THEN a
        ELSE LET code == a.code + Bits(z, p + l - 1, 1)
                 k == code - a.first
             IN IF k < h.cnt[l] THEN [s |-> h.sym[h.off[l] + k + 1] - 1, p |-> p + l, code |-> 0, first |-> 0]
                ELSE [s |-> -2, p |-> p + l, code |-> 2 * code, first |-> 2 * (a.first + h.cnt[l])]
      r == FoldLeft(step, [s |-> -2, p |-> p, code |-> 0, first |-> 0], [l \in 1..15 |-> l])
  IN [s |-> IF r.s = -2 THEN -1 ELSE r.s, p |-> r.p]

LBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115,
           131, 163, 195, 227, 258>>
LExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537,
           2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577>>
DExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>

\* copy n bytes from d back
Copy(out, d, n) ==
  LET m == Len(out) IN out \o [i \in 1..n |-> out[m - d + 1 + ((i - 1) % d)]]

\* Symbols up to the end of the block.  A machine of its own:
\* [st |-> "sym" | "end" | "bad" | "either" | "long", p, out]
SymStep(z, lim, hl, hd, a) ==
  LET s == Sym(z, a.p, hl)
      stop(st) == [a EXCEPT !.st = st]
  IN IF a.p > BitLen(z) THEN stop("bad")
     ELSE IF s.s = -1 THEN stop("bad")
     ELSE IF s.p > BitLen(z) THEN stop("bad")
     ELSE IF s.s < 256 THEN IF Len(a.out) >= lim THEN stop("long")
                            ELSE [a EXCEPT !.p = s.p, !.out = Append(@, s.s)]
     ELSE IF s.s = 256 THEN [a EXCEPT !.st = "end", !.p = s.p]
     ELSE IF s.s > 285 THEN stop("bad")
     ELSE LET k == s.s - 256
              n == LBase[k] + Bits(z, s.p, LExtra[k])
              d == Sym(z, s.p + LExtra[k], hd)
          IN IF d.s = -1 \/ d.s > 29 \/ d.p > BitLen(z) THEN stop("bad")
             ELSE LET dist == DBase[d.s + 1] + Bits(z, d.p, DExtra[d.s + 1])
                      q == d.p + DExtra[d.s + 1]
                  IN IF q > BitLen(z) \/ dist > Len(a.out) THEN stop("bad")
                     ELSE IF Len(a.out) + n > lim THEN stop("long")
                     ELSE [a EXCEPT !.p = q, !.out = Copy(@, dist, n)]
\* every symbol takes at least one bit
Symbols(z, lim, hl, hd, p, out) ==
  FoldLeft(LAMBDA a, i : IF a.st # "sym" THEN a ELSE SymStep(z, lim, hl, hd, a),
           [st |-> "sym", p |-> p, out |-> out], [i \in 1..(BitLen(z) - p + 2) |-> i])

FixedL == Huff([k \in 1..288 |-> IF k <= 144 THEN 8 ELSE IF k <= 256 THEN 9 ELSE IF k <= 280 THEN 7 ELSE 8])
FixedD == Huff([k \in 1..30 |-> 5])

\* The code lengths of a dynamic block: [st, p, lens]
ClOrder == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>
LenStep(z, h, n, a) ==
  LET s == Sym(z, a.p, h)
      rep(v, base, nb) ==
        LET m == base + Bits(z, s.p, nb)
        IN IF Len(a.lens) + m > n THEN [a EXCEPT !.st = "bad"]
           ELSE [a EXCEPT !.p = s.p + nb, !.lens = @ \o [i \in 1..m |-> v]]
  IN IF s.s = -1 \/ s.p > BitLen(z) THEN [a EXCEPT !.st = "bad"]
     ELSE IF s.s < 16 THEN [a EXCEPT !.p = s.p, !.lens = Append(@, s.s)]
     ELSE IF s.s = 16 THEN IF a.lens = <<>> THEN [a EXCEPT !.st = "bad"] ELSE rep(Last0(a.lens), 3, 2)
     ELSE IF s.s = 17 THEN rep(0, 3, 3)
     ELSE rep(0, 11, 7)
\* an incomplete code is tolerated by some decoders
Shape(h) == IF h.left < 0 THEN "bad" ELSE IF h.left > 0 THEN "either" ELSE "sym"
\* a single distance code, or none, is allowed to be incomplete
ShapeD(h) == IF h.left > 0 /\ Len(h.sym) <= 1 THEN "sym" ELSE Shape(h)
Worst(s, t) == IF s = "bad" \/ t = "bad" THEN "bad" ELSE IF s = "either" \/ t = "either" THEN "either" ELSE "sym"
Dynamic(z, lim, s, p) ==
  LET hlit == 257 + Bits(z, p, 5)
      hdist == 1 + Bits(z, p + 5, 5)
      hclen == 4 + Bits(z, p + 10, 4)
      q == p + 14 + 3 * hclen
      cl == FoldLeft(LAMBDA a, i : [a EXCEPT ![ClOrder[i] + 1] = Bits(z, p + 14 + 3 * (i - 1), 3)],
                     [k \in 1..19 |-> 0], [i \in 1..hclen |-> i])
      hc == Huff(cl)
      n == hlit + hdist
      r == FoldLeft(LAMBDA a, i : IF a.st # "sym" \/ Len(a.lens) = n THEN a ELSE LenStep(z, hc, n, a),
                    [st |-> "sym", p |-> q, lens |-> <<>>], [i \in 1..n |-> i])
      ll == SubSeq(r.lens, 1, hlit)
      hl == Huff(ll)
      hd == Huff(SubSeq(r.lens, hlit + 1, n))
  IN IF q > BitLen(z) THEN IStop(s, "bad")
     ELSE IF hlit > 286 \/ hdist > 30 THEN IStop(s, "either")
     ELSE IF hc.left < 0 THEN IStop(s, "bad")
     ELSE IF hc.left > 0 THEN IStop(s, "either")
     ELSE IF r.st = "bad" THEN IStop(s, "bad")
     ELSE IF ll[257] = 0 THEN IStop(s, "either")
     ELSE LET w == Worst(Shape(hl), ShapeD(hd))
          IN IF w # "sym" THEN IStop(s, w) ELSE Symbols(z, lim, hl, hd, r.p, s.out)

\* Adler-32 as its two halves
Adler(d) == FoldLeft(LAMBDA a, x : LET s == (a[1] + x) % 65521 IN <<s, (a[2] + s) % 65521>>, <<1, 0>>, d)
IEnd(z, s) ==
  LET k == (s.p + 7) \div 8
      c == Adler(s.out)
  IN IF k + 4 > Len(z) THEN IStop(s, "bad")
     ELSE IF z[k + 1] * 256 + z[k + 2] = c[2] /\ z[k + 3] * 256 + z[k + 4] = c[1]
          THEN [s EXCEPT !.st = "ok", !.p = 8 * (k + 4)] ELSE IStop(s, "bad")

Stored(z, lim, s, p) ==
  LET k == (p + 7) \div 8
      n == z[k + 1] + 256 * z[k + 2]
  IN IF k + 4 > Len(z) THEN [s EXCEPT !.st = "bad"]
     ELSE IF n + z[k + 3] + 256 * z[k + 4] # 65535 THEN [s EXCEPT !.st = "bad"]
     ELSE IF Len(s.out) + MinOf(n, Len(z) - k - 4) > lim THEN [s EXCEPT !.st = "long"]
     ELSE IF k + 4 + n > Len(z) THEN [s EXCEPT !.st = "bad"]
     ELSE [st |-> "end", p |-> 8 * (k + 4 + n), out |-> s.out \o SubSeq(z, k + 5, k + 4 + n)]

\* one block
IStep(z, lim, s) ==
  LET final == Bits(z, s.p, 1)
      ty == Bits(z, s.p + 1, 2)
      r == CASE ty = 0 -> Stored(z, lim, s, s.p + 3)
             [] ty = 1 -> Symbols(z, lim, FixedL, FixedD, s.p + 3, s.out)
             [] ty = 2 -> Dynamic(z, lim, s, s.p + 3)
             [] OTHER  -> IStop(s, "bad")
  IN IF s.p + 3 > BitLen(z) THEN IStop(s, "bad")
     ELSE IF r.st # "end" THEN r
     ELSE IF final = 1 THEN IEnd(z, [r EXCEPT !.st = "block"])
     ELSE [r EXCEPT !.st = "block"]
IDone(s) == s.st # "block"
\* every block takes at least three bits
IRun(z, lim) == FoldLeft(LAMBDA s, i : IF IDone(s) THEN s ELSE IStep(z, lim, s), IStart(z),
                         [i \in 1..(BitLen(z) \div 3 + 1) |-> i])

\* Decompressing z into exactly n bytes: "ok", "bad" or "either", and the bytes
Unzip(z, n) ==
  LET s == IRun(z, n)
  IN CASE s.st = "ok"   -> [st |-> IF Len(s.out) = n THEN "ok" ELSE "bad", out |-> s.out]
       [] s.st = "long" -> [st |-> "bad", out |-> <<>>]
       [] OTHER         -> [st |-> s.st, out |-> <<>>]
=============================================================================
