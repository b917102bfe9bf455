------------------------------ MODULE MCChunk -------------------------------
(***************************************************************************)
(* Chunks of every type, given as a payload together with the record it    *)
(* stands for, and all their single edits: a byte replaced, bytes missing  *)
(* at the end, bytes added at the end.                                     *)
(***************************************************************************)
EXTENDS Chunks, Encode

CONSTANTS VALUES, EXTRA, ALLBITS

VARIABLES k, op, b, r        \* template, edit, bytes and what they decode to
vars == <<k, op, b, r>>

N1 == <<195, 169, 120>>                      \* a string of three bytes, two characters
Q(n) == <<n, n + 1, n + 2, n + 3>>           \* a four byte integer
NoRes == {}

\* [ty, pay, exp, rest, res]: type, payload, record, does data extend to the
\* end of the chunk, reserved positions of the payload
T(ty, pay, exp, rest, res) == [ty |-> ty, pay |-> pay, exp |-> exp, rest |-> rest, res |-> res]

LayerT(fl, lt, bm, name) ==
  T(8196, E16(fl) \o E16(lt) \o E16(513) \o EZ(4) \o E16(bm) \o E8(77) \o EZ(3) \o EStr(name)
          \o (IF lt = 2 THEN Q(9) ELSE <<>>),
    [t |-> "Layer", vis |-> fl % 2, edit |-> (fl \div 2) % 2, lock |-> (fl \div 4) % 2, bg |-> (fl \div 8) % 2,
     plc |-> (fl \div 16) % 2, coll |-> (fl \div 32) % 2, ref |-> (fl \div 64) % 2,
     lk |-> CASE lt = 0 -> "Normal" [] lt = 1 -> "Group" [] lt = 2 -> "Tilemap" [] OTHER -> "Unknown",
     lv |-> IF lt > 2 THEN lt ELSE 0, child |-> 513,
     bk |-> IF bm > 18 THEN "Unknown" ELSE BlendNames[bm + 1], bv |-> IF bm > 18 THEN bm ELSE 0,
     op |-> 77, name |-> Range2(24, Len(name)), tsi |-> IF lt = 2 THEN <<Q(9)>> ELSE <<>>, ud |-> <<>>],
    FALSE, {6, 7, 8, 9, 13, 14, 15})
CelT(ty, tail, exp) ==
  T(8197, E16(258) \o E16(-5) \o E16(-32768) \o E8(200) \o E16(ty) \o E16(-2) \o EZ(5) \o tail,
    exp @@ [li |-> 258, x |-> -5, y |-> -32768, op |-> 200, z |-> -2] @@ CelBase, ty # 1, 11..15)
SliceT(fl, n) ==
  LET key(i) == Q(i) \o Q(i + 10) \o Q(i + 20) \o Q(i + 30) \o Q(i + 40)
                \o (IF fl % 2 = 1 THEN Q(1) \o Q(2) \o Q(3) \o Q(4) ELSE <<>>)
                \o (IF fl \div 2 = 1 THEN Q(5) \o Q(6) ELSE <<>>)
      rec(i) == [f |-> Q(i), x |-> Q(i + 10), y |-> Q(i + 20), w |-> Q(i + 30), h |-> Q(i + 40),
                 np |-> IF fl % 2 = 1 THEN << <<Q(1), Q(2), Q(3), Q(4)>> >> ELSE <<>>,
                 pv |-> IF fl \div 2 = 1 THEN << <<Q(5), Q(6)>> >> ELSE <<>>]
  IN T(8226, E32(n) \o E32(fl) \o EZ(4) \o EStr(N1) \o Cat([i \in 1..n |-> key(i)]),
       [t |-> "Slice", name |-> <<20, 3>>, nine |-> fl % 2, pivot |-> fl \div 2, ud |-> <<>>,
        keys |-> [i \in 1..n |-> rec(i)]], FALSE, 8..11)
TilesetT(fl) ==
  LET e == IF fl % 2 = 1 THEN 8 ELSE 0
  IN T(8227, Q(1) \o E32(fl) \o Q(2) \o E16(300) \o E16(40000) \o E16(-7) \o EZ(14) \o EStr(N1)
             \o (IF fl % 2 = 1 THEN Q(3) \o Q(4) ELSE <<>>)
             \o (IF (fl \div 2) % 2 = 1 THEN E32(2) \o <<8, 9>> ELSE <<>>),
       [t |-> "Tileset", id |-> Q(1), fl |-> [i \in 1..6 |-> Bit(fl, i - 1)], n |-> Q(2), w |-> 300, h |-> 40000,
        bi |-> -7, name |-> <<40, 3>>, ext |-> IF fl % 2 = 1 THEN << <<Q(3), Q(4)>> >> ELSE <<>>,
        tiles |-> IF (fl \div 2) % 2 = 1 THEN << <<47 + e, 2>> >> ELSE <<>>], FALSE, 18..31)
TagT(d) ==
  T(8216, E16(2) \o EZ(8) \o E16(3) \o E16(700) \o E8(d) \o E16(513) \o EZ(6) \o <<1, 2, 3>> \o EZ(1) \o EStr(N1)
          \o E16(9) \o E16(9) \o E8(3) \o E16(0) \o EZ(6) \o <<4, 5, 6>> \o EZ(1) \o EStr(<<>>),
    [t |-> "Tags", tags |-> <<
      [from |-> 3, to |-> 700, dk |-> IF d > 3 THEN "Unknown" ELSE Directions[d + 1], dv |-> IF d > 3 THEN d ELSE 0,
       rep |-> 513, col |-> <<1, 2, 3>>, name |-> <<35, 3>>, ud |-> <<>>],
      [from |-> 9, to |-> 9, dk |-> "PingPongReverse", dv |-> 0, rep |-> 0, col |-> <<4, 5, 6>>, name |-> <<0, 0>>, ud |-> <<>>] >>],
    FALSE, (2..9) \cup (17..22) \cup {26} \cup (39..44) \cup {48})
ProfileT(ty, fl) ==
  T(8199, E16(ty) \o E16(fl) \o E16(3) \o E16(4) \o EZ(8) \o (IF ty = 2 THEN E32(3) \o <<1, 2, 3>> ELSE <<>>),
    [t |-> "ColorProfile", gamma |-> IF fl % 2 = 1 THEN << <<4, 3>> >> ELSE <<>>,
     pk |-> IF ty > 2 THEN "Unknown" ELSE ProfileTypes[ty + 1], pv |-> IF ty > 2 THEN ty ELSE 0,
     icc |-> IF ty = 2 THEN << <<26, 3>> >> ELSE <<>>], FALSE, 8..15)
FilesT(ft) ==
  T(8200, E32(2) \o EZ(8) \o Q(1) \o E8(ft) \o EZ(7) \o EStr(N1) \o Q(5) \o E8(0) \o EZ(7) \o EStr(<<>>),
    [t |-> "ExternalFiles", files |-> <<
      [id |-> Q(1), fk |-> IF ft > 2 THEN "Unknown" ELSE FileTypes[ft + 1], fv |-> IF ft > 2 THEN ft ELSE 0, name |-> <<32, 3>>],
      [id |-> Q(5), fk |-> "Palette", fv |-> 0, name |-> <<0, 0>>] >>], FALSE, (4..11) \cup (17..23) \cup (34..40))
PaletteT(first, fl) ==
  T(8217, E32(300) \o E32(first) \o E32(first + 1) \o EZ(8) \o E16(fl) \o Q(1) \o (IF fl % 2 = 1 THEN EStr(N1) ELSE <<>>)
          \o E16(0) \o Q(200),
    [t |-> "Palette", first |-> first, last |-> first + 1, entries |-> <<
      [c |-> Q(1), name |-> IF fl % 2 = 1 THEN << <<34, 3>> >> ELSE <<>>], [c |-> Q(200), name |-> <<>>] >>],
    FALSE, (0..3) \cup (12..19))
OldT(ty, t) ==
  T(ty, E16(3) \o <<5, 2>> \o <<1, 2, 3, 4, 5, 6>> \o <<0, 1>> \o <<7, 8, 9>> \o <<255, 1>> \o <<0, 0, 0>>,
    [t |-> t, packets |-> << [skip |-> 5, colors |-> << <<1, 2, 3>>, <<4, 5, 6>> >>],
                             [skip |-> 0, colors |-> << <<7, 8, 9>> >>], [skip |-> 255, colors |-> << <<0, 0, 0>> >>] >>],
    FALSE, NoRes)
\* a packet of 256 colors is declared as zero
FullT == T(4, E16(1) \o <<0, 0>> \o [i \in 1..768 |-> i % 251],
           [t |-> "Palette0004", packets |-> << [skip |-> 0, colors |-> [i \in 1..256 |->
             << (3 * i - 2) % 251, (3 * i - 1) % 251, (3 * i) % 251 >>]] >>], FALSE, NoRes)
UdT(fl) ==
  LET text == IF fl % 2 = 1 THEN EStr(N1) ELSE <<>>
      col == IF (fl \div 2) % 2 = 1 THEN Q(4) ELSE <<>>
      o == 10 + Len(text) + Len(col) + 8
      props == E32(38) \o E32(1) \o Q(7) \o E32(2) \o EStr(<<97>>) \o E16(3) \o E8(200)
               \o EStr(<<>>) \o E16(13) \o EStr(N1) \o <<>>
      body == IF fl \div 4 = 1 THEN E32(8 + 8 + 6 + 9) \o SubSeq(props, 5, Len(props)) ELSE <<>>
  IN T(8224, E32(fl) \o text \o col \o body,
       [t |-> "UserData", text |-> IF fl % 2 = 1 THEN << <<12, 3>> >> ELSE <<>>,
        color |-> IF (fl \div 2) % 2 = 1 THEN <<Q(4)>> ELSE <<>>,
        props |-> IF fl \div 4 = 0 THEN <<>> ELSE << [ok |-> 1, maps |-> << [t |-> "Map", b |-> Q(7),
           n |-> << <<o + 10, 1>>, <<0, 0>> >>,
           s |-> << Leaf("Uint8", <<200>>), Leaf("String", <<o + 20, 3>>) >>] >>] >>], FALSE, NoRes)

Templates ==
  << LayerT(0, 0, 0, N1), LayerT(127, 1, 18, <<>>), LayerT(42, 2, 7, N1), LayerT(65535, 3, 19, N1), LayerT(85, 65535, 600, <<>>),
     CelT(0, E16(2) \o E16(300) \o <<1, 2, 3>>, [ck |-> "Image", w |-> 2, h |-> 300, comp |-> 0, data |-> <<26, 3>>]),
     CelT(2, E16(65535) \o E16(1), [ck |-> "Image", w |-> 65535, h |-> 1, comp |-> 1, data |-> <<0, 0>>]),
     CelT(1, E16(513), [ck |-> "Linked", fp |-> 513]),
     CelT(3, E16(2) \o E16(3) \o E16(32) \o Q(1) \o Q(2) \o Q(3) \o Q(4) \o EZ(10) \o <<5, 6>>,
          [ck |-> "Tilemap", w |-> 2, h |-> 3, bpt |-> 32, mid |-> Q(1), mx |-> Q(2), my |-> Q(3), md |-> Q(4), data |-> <<54, 2>>]),
     CelT(4, <<1, 2>>, [ck |-> "Unknown", ct |-> 4, data |-> <<22, 2>>]),
     CelT(65535, <<>>, [ck |-> "Unknown", ct |-> 65535, data |-> <<0, 0>>]),
     T(8198, E32(1) \o E16(1) \o E16(2) \o E16(3) \o E16(4) \o E16(5) \o E16(6) \o E16(7) \o E16(65535) \o <<9>>,
       [t |-> "CelExtra", precise |-> 1, x |-> <<2, 1>>, y |-> <<4, 3>>, w |-> <<6, 5>>, h |-> <<65535, 7>>, fut |-> <<26, 1>>], TRUE, NoRes),
     ProfileT(0, 0), ProfileT(1, 1), ProfileT(2, 1), ProfileT(2, 0), ProfileT(3, 0), ProfileT(65535, 65535),
     FilesT(0), FilesT(1), FilesT(2), FilesT(3), FilesT(255),
     T(8214, E16(-1) \o E16(2) \o E16(3) \o E16(65535) \o EZ(8) \o EStr(N1) \o <<1, 2>>,
       [t |-> "Mask", x |-> -1, y |-> 2, w |-> 3, h |-> 65535, name |-> <<24, 3>>, data |-> <<27, 2>>], TRUE, 8..15),
     T(8215, <<>>, [t |-> "Path"], FALSE, NoRes),
     TagT(0), TagT(1), TagT(2), TagT(3), TagT(4), TagT(255),
     PaletteT(0, 0), PaletteT(254, 1), PaletteT(7, 3),
     OldT(4, "Palette0004"), OldT(17, "Palette0011"), FullT,
     UdT(0), UdT(1), UdT(2), UdT(3), UdT(4), UdT(5), UdT(6), UdT(7),
     SliceT(0, 0), SliceT(0, 2), SliceT(1, 2), SliceT(2, 1), SliceT(3, 2),
     TilesetT(0), TilesetT(1), TilesetT(2), TilesetT(63), TilesetT(44),
     T(4660, <<1, 2, 3>>, [t |-> "Unsupported", code |-> 4660], TRUE, 0..2),
     T(0, <<>>, [t |-> "Unsupported", code |-> 0], TRUE, NoRes),
     T(8225, <<>>, [t |-> "Unsupported", code |-> 8225], TRUE, NoRes) >>

Pay == Templates[k].pay
\* long templates: only part of their positions
Positions == {p \in 1..Len(Pay) : p < 80 \/ p > Len(Pay) - 2}
Flip(v, i) == IF (v \div 2^i) % 2 = 1 THEN v - 2^i ELSE v + 2^i
Ops == { <<"none">> }
       \cup { <<"set", p, v>> : p \in Positions, v \in VALUES }
       \cup (IF ALLBITS THEN { <<"set", p, Flip(Pay[p], i)>> : p \in Positions, i \in 0..7 } ELSE {})
       \cup { <<"cut", n>> : n \in {n \in 1..Len(Pay) : n < 80 \/ n > Len(Pay) - 2} }
       \cup { <<"add", n>> : n \in EXTRA }
       \cup { <<"size", d>> : d \in {-100000, -2, -1, 1, 1000000000} }
Edited(o) == CASE o[1] = "set" -> [Pay EXCEPT ![o[2]] = o[3]]
               [] o[1] = "cut" -> SubSeq(Pay, 1, Len(Pay) - o[2])
               [] o[1] = "add" -> Pay \o [i \in 1..o[2] |-> 200 + i]
               [] OTHER -> Pay
Build(o) == LET c == EChunk(Templates[k].ty, Edited(o))
            IN IF o[1] # "size" THEN c
               ELSE E32(IF o[2] = -100000 THEN 5 ELSE Len(c) + o[2]) \o SubSeq(c, 5, Len(c))

Init == k \in DOMAIN Templates /\ op = <<"start">> /\ b = <<>> /\ r = <<>>
Next == /\ op[1] = "start"
        /\ k' = k
        /\ \E o \in Ops : op' = o /\ b' = Build(o)
        /\ r' = Chunk(b', 0, Len(b'))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Tm == Templates[k]
Edit == op[1] # "start"
Faithful == op[1] = "none" => r.ok /\ r.v = Tm.exp
Consumes == Edit /\ r.ok => r.p = U32(b, 0) /\ r.p <= Len(b)
\* a chunk too short for its content is an error
Short == op[1] = "cut" => IF Tm.rest THEN TRUE ELSE ~r.ok
\* extra bytes and reserved bytes have no influence
ExtraIgnored == op[1] = "add" /\ ~Tm.rest => r.ok /\ r.v = Tm.exp
ReservedIgnored == op[1] = "set" /\ (op[2] - 1) \in Tm.res => r.ok /\ r.v = Tm.exp
BadSize == op[1] = "size" => (r.ok => op[2] < 0 /\ Tm.rest)
\* an edit of one byte changes the type never, and nothing when it is none
SameType == Edit /\ r.ok => r.v.t = Tm.exp.t
Emit == Edit => Show([op |-> "chunk", in |-> b, exp |-> Result(r.ok, [used |-> r.p, c |-> r.v])])
=============================================================================
