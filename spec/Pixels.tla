------------------------------- MODULE Pixels -------------------------------
(***************************************************************************)
(* From stored image data to RGBA pixels.                                  *)
(***************************************************************************)
EXTENDS Inflate

PixelSize(dk) == CASE dk = "Rgba" -> 4 [] dk = "Grayscale" -> 2 [] dk = "Indexed" -> 1 [] OTHER -> 0
\* the k-th byte (0-based) of the RGBA image whose pixel data is d
Rgba8(dk, pal, d, k) ==
  LET i == k \div 4
      c == k % 4
  IN CASE dk = "Rgba"      -> d[k + 1]
       [] dk = "Grayscale" -> d[2 * i + (IF c = 3 THEN 2 ELSE 1)]
       [] dk = "Indexed"   -> pal[d[i + 1] + 1][c + 1]
ToRgba(dk, pal, d) == [k \in 1..(4 * (Len(d) \div PixelSize(dk))) |-> Rgba8(dk, pal, d, k - 1)]

\* Decoding an image of w x h pixels: [st |-> "ok" | "bad" | "either", px]
Decode(dk, pal, w, h, comp, data) ==
  LET n == w * h * PixelSize(dk)
      r == IF comp = 0 THEN [st |-> IF Len(data) = n THEN "ok" ELSE "bad", out |-> data] ELSE Unzip(data, n)
  IN [st |-> r.st, px |-> IF r.st = "ok" THEN ToRgba(dk, pal, r.out) ELSE <<>>]

\* the content of a buffer before the call
Prefill(fill, k) == (7 * (k - 1) + fill) % 256
=============================================================================
