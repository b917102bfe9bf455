------------------------------- MODULE Blend --------------------------------
(***************************************************************************)
(* Aseprite's blender on 8 bit RGBA pixels <<r, g, b, a>>, in integers.    *)
(* Blend yields the set of acceptable results: one pixel, except where     *)
(* the reference computes in floating point and the exact value lies on a  *)
(* rounding boundary.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x > y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x
\* division truncating towards zero
TDiv(n, d) == IF n < 0 THEN -((-n) \div d) ELSE n \div d

Mul8(a, b) == LET t == a * b + 128 IN ((t \div 256) + t) \div 256
Div8(a, b) == (a * 255 + b \div 2) \div b

----------------------------------------------------------------------------
Normal(B, F, op) ==
  IF B[4] = 0 THEN <<F[1], F[2], F[3], Mul8(F[4], op)>>
  ELSE IF F[4] = 0 THEN B
  ELSE LET fa == Mul8(F[4], op)
           ra == fa + B[4] - Mul8(B[4], fa)
           ch(k) == B[k] + TDiv((F[k] - B[k]) * fa, ra)
       IN <<ch(1), ch(2), ch(3), ra>>

Mix8(b, f, op) == LET t == (f - b) * op + 128 IN b + ((t \div 256) + t) \div 256
Merge(B, F, op) ==
  LET a == Mix8(B[4], F[4], op)
      ch(k) == IF B[4] = 0 THEN F[k] ELSE IF F[4] = 0 THEN B[k] ELSE Mix8(B[k], F[k], op)
  IN IF a = 0 THEN <<0, 0, 0, 0>> ELSE <<ch(1), ch(2), ch(3), a>>

----------------------------------------------------------------------------
\* Separable modes: backdrop channel b, source channel s
Multiply(b, s) == Mul8(b, s)
Screen(b, s) == b + s - Mul8(b, s)
HardLight(b, s) == IF s < 128 THEN Multiply(b, 2 * s) ELSE Screen(b, 2 * s - 255)
ColorDodge(b, s) == IF b = 0 THEN 0 ELSE IF b >= 255 - s THEN 255 ELSE Div8(b, 255 - s)
ColorBurn(b, s) == IF b = 255 THEN 255 ELSE IF 255 - b >= s THEN 0 ELSE 255 - Div8(255 - b, s)
DivideCh(b, s) == IF b = 0 THEN 0 ELSE IF b >= s THEN 255 ELSE Div8(b, s)

\* x^2 <= 4 k^2 n for 0 <= x <= 200000, k <= 255, n <= 65025, where the squares
\* do not fit an integer of TLC: compared as <<high, low>> in base 2^16
Pair(hi, lo) == <<hi + lo \div 65536, lo % 65536>>
PairLe(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
SquareLe(x, k, n) ==
  LET a == x \div 512
      c == x % 512
      kk == 4 * k * k
      m == kk * (n \div 256)
  IN PairLe(Pair(4 * a * a, 1024 * a * c + c * c), Pair(m \div 256, 256 * (m % 256) + kk * (n % 256)))
\* k (sqrt(255 b) - b) / 255 rounded to an integer, exactly (it is below 64)
SqrtPart(b, k) ==
  LET below(d) == \* d - 1/2 is at most the exact value
        LET x == 255 * (2 * d - 1) + 2 * k * b
        IN x <= 0 \/ SquareLe(x, k, 255 * b)
  IN CHOOSE d \in 0..64 : below(d) /\ ~below(d + 1)

\* With B = b/255 and S = s/255: B - (1 - 2S) B (1 - B) for S <= 1/2, else
\* B + (2S - 1)(D - B), where D = ((16B - 12)B + 4)B for B <= 1/4, else sqrt(B);
\* scaled to 255 and rounded.
SoftLight(b, s) ==
  IF 2 * s <= 255
    THEN { (130050 * b - 2 * (255 - 2 * s) * b * (255 - b) + 65025) \div 130050 }
  ELSE LET k == 2 * s - 255
       IN IF 4 * b <= 255
            THEN LET q == k * (16 * b * b * b - 3060 * b * b + 195075 * b)
                 IN { b + (q + 8290687) \div 16581375 }
          ELSE { b + SqrtPart(b, k) }

Channel(m, b, s) ==
  CASE m = "Multiply"   -> {Multiply(b, s)}
    [] m = "Screen"     -> {Screen(b, s)}
    [] m = "Overlay"    -> {HardLight(s, b)}
    [] m = "Darken"     -> {Lo(b, s)}
    [] m = "Lighten"    -> {Hi(b, s)}
    [] m = "ColorDodge" -> {ColorDodge(b, s)}
    [] m = "ColorBurn"  -> {ColorBurn(b, s)}
    [] m = "HardLight"  -> {HardLight(b, s)}
    [] m = "SoftLight"  -> SoftLight(b, s)
    [] m = "Difference" -> {Abs(b - s)}
    [] m = "Exclusion"  -> {b + s - 2 * Mul8(b, s)}
    [] m = "Addition"   -> {Lo(b + s, 255)}
    [] m = "Subtract"   -> {Hi(b - s, 0)}
    [] m = "Divide"     -> {DivideCh(b, s)}

----------------------------------------------------------------------------
\* HSL modes, in exact rational arithmetic.  A color is <<r, g, b>> in units
\* of 1/(255 D); luminosities are in units of 1/25500.
Lum(c) == 30 * c[1] + 59 * c[2] + 11 * c[3]
MaxC(c) == Hi(c[1], Hi(c[2], c[3]))
MinC(c) == Lo(c[1], Lo(c[2], c[3]))
Sat(c) == MaxC(c) - MinC(c)

\* The reference sorts the channels with macros on references, so that for
\* equal channels the minimum, middle and maximum may be the same variable.
Order(c) ==
  LET r == c[1]
      g == c[2]
      b == c[3]
  IN [min |-> IF r < Lo(g, b) THEN 1 ELSE IF g < b THEN 2 ELSE 3,
      max |-> IF r > Hi(g, b) THEN 1 ELSE IF g > b THEN 2 ELSE 3,
      mid |-> IF r > g THEN IF g > b THEN 2 ELSE IF r > b THEN 3 ELSE 1
              ELSE IF g > b THEN IF b > r THEN 3 ELSE 1 ELSE 2]
\* set saturation: [c, d] with the channels scaled by d
SetSat(c, sat) ==
  LET o == Order(c)
      span == c[o.max] - c[o.min]
      d == IF span > 0 THEN span ELSE 1
      mid == IF span > 0 THEN (c[o.mid] - c[o.min]) * sat ELSE 0
      max == IF span > 0 THEN sat * d ELSE 0
  IN [c |-> [k \in 1..3 |-> IF k = o.min THEN 0 ELSE IF k = o.max THEN max ELSE IF k = o.mid THEN mid
                            ELSE c[k] * d],
      d |-> d]

\* floor and remainder of a * c / y for a < 2^18, |c|, y < 2^24 (c >= 0)
MulDiv(a, c, y) ==
  LET step(s, d) == LET t == s[2] * 64 + d * c IN << s[1] * 64 + t \div y, t % y >>
  IN FoldLeft(step, <<0, 0>>, << a \div 4096, (a \div 64) % 64, a % 64 >>)

\* A channel value that is an exact multiple of 1/255 may be computed as
\* slightly less, and the reference truncates.
Trunc(v, exact) == IF exact /\ v > 0 THEN {v, v - 1} ELSE {v}
\* set luminosity to L with clipping; the sets of the three channels
SetLum(x, L) ==
  LET d  == x.d
      ch(k) == 100 * x.c[k] + (L * d - Lum(x.c))       \* units 1/(25500 d)
      n  == Lo(ch(1), Lo(ch(2), ch(3)))
      mx == Hi(ch(1), Hi(ch(2), ch(3)))
      ld == L * d
      low(k)  == LET q == MulDiv(L, ch(k) - n, ld - n)
                 IN Trunc(q[1] \div 100, q[2] = 0 /\ q[1] % 100 = 0)
      high(k) == LET t == ch(k) - ld
                     q == MulDiv(25500 - L, Abs(t), mx - ld)
                     v == IF t >= 0 THEN L + q[1] ELSE IF q[2] = 0 THEN L - q[1] ELSE L - q[1] - 1
                 IN Trunc(v \div 100, q[2] = 0 /\ v % 100 = 0)
      plain(k) == Trunc(ch(k) \div (100 * d), ch(k) % (100 * d) = 0)
  IN [k \in 1..3 |-> IF n < 0 THEN low(k) ELSE IF mx > 25500 * d THEN high(k) ELSE plain(k)]

Hsl(m, B, F) ==
  CASE m = "Hue"        -> SetLum(SetSat(F, Sat(B)), Lum(B))
    [] m = "Saturation" -> SetLum(SetSat(B, Sat(F)), Lum(B))
    [] m = "Color"      -> SetLum([c |-> F, d |-> 1], Lum(B))
    [] m = "Luminosity" -> SetLum([c |-> B, d |-> 1], Lum(F))
HslModes == {"Hue", "Saturation", "Color", "Luminosity"}

----------------------------------------------------------------------------
\* The blended source color, before compositing
Mixed(m, B, F) ==
  LET b == <<B[1], B[2], B[3]>>
      f == <<F[1], F[2], F[3]>>
      c == IF m \in HslModes THEN Hsl(m, b, f) ELSE [k \in 1..3 |-> Channel(m, b[k], f[k])]
  IN { <<x, y, z, F[4]>> : x \in c[1], y \in c[2], z \in c[3] }

Composite(B, F, M, op) ==
  LET norm == Normal(B, F, op)
      mixd == Normal(B, M, op)
      part == Merge(norm, mixd, B[4])
  IN Merge(part, mixd, Mul8(B[4], Mul8(F[4], op)))
Blend(m, B, F, op) ==
  IF m = "Normal" \/ B[4] = 0 THEN {Normal(B, F, op)}
  ELSE { Composite(B, F, M, op) : M \in Mixed(m, B, F) }
=============================================================================
