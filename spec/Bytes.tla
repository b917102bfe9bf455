------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte sequences and the scalar types of the Aseprite file format.  A     *)
(* position p is the number of bytes before the scalar, so that the byte   *)
(* at position p of the sequence b is b[p + 1].  Four byte integers are    *)
(* kept as the tuple of their bytes (TLC's integers have 32 bits); sizes   *)
(* and counts are used as saturated values.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

U8(b, p)  == b[p + 1]
U16(b, p) == b[p + 1] + 256 * b[p + 2]
I16(b, p) == LET v == U16(b, p) IN IF v < 32768 THEN v ELSE v - 65536
B4(b, p)  == <<b[p + 1], b[p + 2], b[p + 3], b[p + 4]>>
BN(b, p, n) == SubSeq(b, p + 1, p + n)

BIG == 1073741824                    \* saturation value of DWORDs: 2^30
SatVal(q) == IF q[4] >= 64 THEN BIG
             ELSE q[1] + 256 * q[2] + 65536 * q[3] + 16777216 * q[4]
U32(b, p) == SatVal(B4(b, p))

Bit(v, k) == (v \div 2^k) % 2        \* bit k of a number

MinOf(x, y) == IF x < y THEN x ELSE y
MaxOf(x, y) == IF x > y THEN x ELSE y

(***************************************************************************)
(* UTF-8 (RFC 3629) as an automaton: [need |-> continuation bytes to come, *)
(* lo..hi |-> the range of the next one]; need = -1 is the error state.    *)
(***************************************************************************)
Utf8Start == <<0, 0, 0>>
Utf8Step(s, c) ==
  IF s[1] = -1 THEN s
  ELSE IF s[1] > 0 THEN IF c >= s[2] /\ c <= s[3] THEN <<s[1] - 1, 128, 191>> ELSE <<-1, 0, 0>>
  ELSE IF c < 128 THEN Utf8Start
  ELSE IF c >= 194 /\ c <= 223 THEN <<1, 128, 191>>
  ELSE IF c = 224 THEN <<2, 160, 191>>
  ELSE IF c = 237 THEN <<2, 128, 159>>
  ELSE IF c >= 225 /\ c <= 239 THEN <<2, 128, 191>>
  ELSE IF c = 240 THEN <<3, 144, 191>>
  ELSE IF c >= 241 /\ c <= 243 THEN <<3, 128, 191>>
  ELSE IF c = 244 THEN <<3, 128, 143>>
  ELSE <<-1, 0, 0>>
Utf8Ok(s) == FoldLeft(Utf8Step, Utf8Start, s)[1] = 0

\* A borrowed range of the input; empty ranges have no identity.
Range2(p, n) == IF n = 0 THEN <<0, 0>> ELSE <<p, n>>

Last0(s) == s[Len(s)]
Map(f(_), s) == [k \in 1..Len(s) |-> f(s[k])]
=============================================================================
