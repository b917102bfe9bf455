------------------------------- MODULE MCBlend -------------------------------
(***************************************************************************)
(* The blender: rows of pixels for every mode, with the laws that the      *)
(* formulas imply.  Kinds of rows:                                         *)
(*   "chan"  opaque pixels; three backdrop values against every source     *)
(*           value, so that all rows together contain all pairs of values  *)
(*   "alpha" every combination of alphas and opacities for some colors     *)
(*   "hsl"   opaque colors of a grid against all colors of the grid        *)
(***************************************************************************)
EXTENDS Chunks, Blend, Encode

CONSTANTS ROWS,     \* kinds of rows
          MODES,    \* modes of "chan" and "alpha"
          BASE,     \* backdrop values of "chan", out of 0..85
          ALPHAS, OPS, COLORS, GRID

VARIABLES x,             \* [k, m, a: parameters]
          back, front, op, res
vars == <<x, back, front, op, res>>

AscSeq(S) == SetToSortSeq(S, <)
G == AscSeq(GRID)
Grid3 == [i \in 1..(Len(G)^3) |-> LET j == i - 1 IN << G[(j % Len(G)) + 1], G[((j \div Len(G)) % Len(G)) + 1], G[(j \div (Len(G)^2)) + 1] >>]
Colors == SetToSeq(COLORS)
Picks ==
  (IF "chan" \in ROWS THEN { [k |-> "chan", m |-> m, a |-> <<b>>] : m \in MODES \ HslModes, b \in BASE } ELSE {})
  \cup (IF "alpha" \in ROWS THEN { [k |-> "alpha", m |-> m, a |-> <<p, q, o>>] : m \in MODES, p \in ALPHAS, q \in ALPHAS, o \in OPS } ELSE {})
  \cup (IF "hsl" \in ROWS THEN { [k |-> "hsl", m |-> m, a |-> <<i>>] : m \in HslModes, i \in 1..Len(Grid3) } ELSE {})
Opaque(c) == <<c[1], c[2], c[3], 255>>
N2 == Len(Colors) * Len(Colors)
BackRow(y) ==
  CASE y.k = "chan"  -> [s \in 1..256 |-> <<y.a[1], y.a[1] + 85, (y.a[1] + 170) % 256, 255>>]
    [] y.k = "alpha" -> [i \in 1..N2 |-> LET c == Colors[((i - 1) % Len(Colors)) + 1] IN <<c[1], c[2], c[3], y.a[1]>>]
    [] y.k = "hsl"   -> [i \in 1..Len(Grid3) |-> Opaque(Grid3[y.a[1]])]
FrontRow(y) ==
  CASE y.k = "chan"  -> [s \in 1..256 |-> <<s - 1, s - 1, s - 1, 255>>]
    [] y.k = "alpha" -> [i \in 1..N2 |-> LET c == Colors[((i - 1) \div Len(Colors)) + 1] IN <<c[1], c[2], c[3], y.a[2]>>]
    [] y.k = "hsl"   -> [i \in 1..Len(Grid3) |-> Opaque(Grid3[i])]

Init == x = <<>> /\ back = <<>> /\ front = <<>> /\ op = 255 /\ res = <<>>
Pick == x = <<>> /\ (\E y \in Picks : x' = y) /\ UNCHANGED <<back, front, op, res>>
Row == /\ x # <<>> /\ res = <<>>
       /\ x' = x
       /\ back' = BackRow(x) /\ front' = FrontRow(x)
       /\ op' = IF x.k = "alpha" THEN x.a[3] ELSE 255
       /\ res' = [i \in 1..Len(back') |-> Blend(x.m, back'[i], front'[i], op')]
Next == Pick \/ Row
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
I == 1..Len(res)
All(P(_, _, _)) == \A i \in I : \A r \in res[i] : P(back[i], front[i], r)
InRange == All(LAMBDA B, F, r : \A k \in 1..4 : r[k] \in 0..255)
Defined == \A i \in I : res[i] # {}
\* the alpha of the result does not depend on the mode
SameAlpha == All(LAMBDA B, F, r : r[4] = Normal(B, F, op)[4])
Nothing == All(LAMBDA B, F, r : (Mul8(F[4], op) = 0 /\ B[4] > 0) => r = B)
OnNothing == All(LAMBDA B, F, r : B[4] = 0 => r = <<F[1], F[2], F[3], Mul8(F[4], op)>>)
Covering == All(LAMBDA B, F, r : (x.m = "Normal" /\ F[4] = 255 /\ op = 255) => r = F)
\* alpha lies between the larger of both and their sum
AlphaBetween == All(LAMBDA B, F, r : LET fa == Mul8(F[4], op) IN r[4] >= Hi(B[4], fa) /\ r[4] <= Lo(255, B[4] + fa))
\* Normal stays between both colors
Between == x # <<>> => (x.m = "Normal" => All(LAMBDA B, F, r : B[4] > 0 => \A k \in 1..3 : r[k] >= Lo(B[k], F[k]) /\ r[k] <= Hi(B[k], F[k])))

Ch(m, b, s) == CHOOSE v \in Channel(m, b, s) : TRUE
Chan == x # <<>> /\ (IF x # <<>> THEN x.k = "chan" /\ x.m # "Normal" ELSE FALSE) /\ res # <<>>
Commutes == {"Multiply", "Screen", "Darken", "Lighten", "Difference", "Exclusion", "Addition"}
\* opaque pixels show the mixed channels
Opaques == Chan => All(LAMBDA B, F, r : \A k \in 1..3 : r[k] \in Channel(x.m, B[k], F[k]))
Commutative == Chan /\ (IF x # <<>> THEN x.m \in Commutes ELSE FALSE) =>
                 \A i \in I : \A k \in 1..3 : Channel(x.m, back[i][k], front[i][k]) = Channel(x.m, front[i][k], back[i][k])
\* source values without effect, and with a constant result
Id == [Multiply |-> 255, Screen |-> 0, Darken |-> 255, Lighten |-> 0, ColorDodge |-> 0, ColorBurn |-> 255, Difference |-> 0,
       Exclusion |-> 0, Addition |-> 0, Subtract |-> 0, Divide |-> 255]
Const == [Multiply |-> 0, Screen |-> 255, Darken |-> 0, Lighten |-> 255, Addition |-> 255, Subtract |-> 255]
Identity == Chan => /\ (x.m \in DOMAIN Id => \A k \in 1..3 : LET b == back[1][k] IN Channel(x.m, b, Id[x.m]) = {b})
                    /\ (x.m \in DOMAIN Const => \A k \in 1..3 :
                          Channel(x.m, back[1][k], Const[x.m]) = {IF x.m = "Subtract" THEN 0 ELSE Const[x.m]})
Turned == \A i \in I : \A k \in 1..3 : Channel("Overlay", back[i][k], front[i][k]) = Channel("HardLight", front[i][k], back[i][k])
Inverted == Chan => \A k \in 1..3 : LET b == back[1][k] IN Channel("Exclusion", b, 255) = {255 - b} /\ Channel("Difference", b, 255) = {255 - b}
\* not decreasing in the source value, or not increasing
Up == {"Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight", "Addition"}
Down == {"Subtract", "Divide"}
Monotone == Chan => \A i \in 2..Len(res) : \A k \in 1..3 :
  LET p == Ch(x.m, back[i][k], front[i - 1][k])
      q == Ch(x.m, back[i][k], front[i][k])
  IN (x.m \in Up => p <= q) /\ (x.m = "Subtract" => p >= q) /\ (x.m = "Divide" /\ front[i - 1][k] > 0 => p >= q)
\* darkening and lightening modes
Sided == Chan => All(LAMBDA B, F, r : \A k \in 1..3 :
           /\ x.m \in {"Multiply", "Darken", "ColorBurn", "Subtract"} => r[k] <= B[k]
           /\ x.m \in {"Screen", "Lighten", "ColorDodge", "Addition", "Divide"} => r[k] >= B[k])
\* HSL: the luminosity of the result is the wanted one, up to truncation of
\* the channels; a gray backdrop has no saturation to give
HslRow == x # <<>> /\ (IF x # <<>> THEN x.k = "hsl" ELSE FALSE)
Luminosity1 == HslRow => All(LAMBDA B, F, r :
  LET want == Lum(IF x.m = "Luminosity" THEN F ELSE B) IN Lum(r) <= want /\ Lum(r) > want - 201)
Gray(c) == c[1] = c[2] /\ c[2] = c[3]
\* the reference leaves a channel alone when two are equal
Sorted(c) == Cardinality({c[1], c[2], c[3]}) = 3
Grays == HslRow => \A i \in I :
  ((x.m = "Hue" /\ Gray(back[i]) /\ Sorted(front[i])) \/ (x.m = "Color" /\ Gray(front[i]))) =>
     \E r \in res[i] : Abs(r[1] - r[2]) <= 1 /\ Abs(r[2] - r[3]) <= 1
\* keeping all three attributes keeps the color
Same == HslRow => \A i \in I : back[i] = front[i] /\ (Sorted(back[i]) \/ x.m \in {"Color", "Luminosity"}) => \A r \in res[i] : \A k \in 1..3 : Abs(r[k] - back[i][k]) <= 1

ModeNo(m) == (CHOOSE i \in 1..Len(BlendNames) : BlendNames[i] = m) - 1
Emit == res # <<>> /\ (IF x # <<>> THEN x.k # "chan" ELSE FALSE) => Show([op |-> "blend", mode |-> ModeNo(x.m), opacity |-> op, back |-> back, front |-> front, in |-> <<>>,
                            exp |-> [st |-> "ok", r |-> << [i \in I |-> SetToSeq(res[i])] >>]])
ColorsQ == { <<0, 0, 0>>, <<255, 128, 1>>, <<37, 200, 254>>, <<100, 100, 90>> }
AllModes == {BlendNames[i] : i \in 1..Len(BlendNames)}
Separable == AllModes \ HslModes
HslOnly == HslModes
=============================================================================
