----------------------------- MODULE MCPalette ------------------------------
(***************************************************************************)
(* All sequences of at most DEPTH palette chunks of the three kinds, in    *)
(* one frame or spread over two: the incremental machine of Palette        *)
(* against a declarative account of who defined each entry last.           *)
(***************************************************************************)
EXTENDS Container, Assemble, Encode

CONSTANTS DEPTH, TIS, SPLITS

VARIABLES toks, s, ti, cut
vars == <<toks, s, ti, cut>>

Shown == 8          \* entries of interest
\* A chunk as <<kind, sequence of <<first index, number of colors>> >>; the
\* packets of old chunks are given by the indices they end up at.
Tokens ==
  { <<"P", <<0, 1>> >>, <<"P", <<1, 2>> >>, <<"P", <<0, 3>> >>, <<"P", <<254, 2>> >>,
    <<"Q", <<0, 1>> >>, <<"Q", <<1, 2>> >>, <<"Q", <<0, 1>>, <<3, 1>> >>, <<"Q", <<1, 1>>, <<2, 1>>, <<5, 2>> >>,
    <<"Q">>, <<"Q", <<255, 2>> >>,
    <<"R", <<0, 2>> >>, <<"R", <<2, 1>>, <<4, 1>> >>, <<"R">>, <<"R", <<255, 1>>, <<256, 1>> >>,
    <<"X">> }
Packets(t) == SubSeq(t, 2, Len(t))
\* the color chunk i gives to entry j
Comp(i, j) == (16 * i + 5 * j) % 64
Color3(i, j) == << Comp(i, j), i, j % 64 >>
Bytes4(i, j) == << Comp(i, j), 200 + i, j, 77 + i >>
Tok(i, t) ==
  LET pk == Packets(t)
      end(k) == IF k = 0 THEN 0 ELSE pk[k][1] + pk[k][2]
      old(ty) == EOld(ty, [k \in 1..Len(pk) |-> << pk[k][1] - end(k - 1), [n \in 1..pk[k][2] |-> Color3(i, pk[k][1] + n - 1)] >>])
  IN CASE t[1] = "P" -> EPalette(9, pk[1][1], [n \in 1..pk[1][2] |-> Bytes4(i, pk[1][1] + n - 1)])
       [] t[1] = "Q" -> old(4)
       [] t[1] = "R" -> old(17)
       [] t[1] = "X" -> EColorUd(<<9, 9, 9, 9>>)

Init == toks = <<>> /\ s = AStart /\ ti \in TIS /\ cut \in SPLITS
Next ==
  /\ Len(toks) < DEPTH
  /\ \E t \in Tokens :
       LET c == Tok(Len(toks) + 1, t)
           r == Chunk(c, 0, Len(c))
       IN r.ok /\ toks' = Append(toks, t) /\ s' = AChunk(s, r.v)
  /\ UNCHANGED <<ti, cut>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
I == 1..Len(toks)
Kind == IF \E i \in I : toks[i][1] = "P" THEN "P"
        ELSE IF \E i \in I : toks[i][1] = "Q" THEN "Q"
        ELSE IF \E i \in I : toks[i][1] = "R" THEN "R" ELSE "none"
Of(k) == {i \in I : toks[i][1] = k}
Names(i, j) == \E k \in DOMAIN Packets(toks[i]) : LET p == Packets(toks[i])[k] IN j >= p[1] /\ j < p[1] + p[2]
Beyond(i) == \E k \in DOMAIN Packets(toks[i]) : LET p == Packets(toks[i])[k] IN p[1] + p[2] > 256
Good == Kind # "none" /\ (\A i \in Of(Kind) : ~Beyond(i)) /\ (\E i \in Of(Kind) : Packets(toks[i]) # <<>>)
LastFor(j) == LET d == {i \in Of(Kind) : Names(i, j)} IN IF d = {} THEN 0 ELSE CHOOSE i \in d : \A k \in d : k <= i
Scale(v) == (v * 4) + (v \div 16)
Entry(j) ==
  LET i == LastFor(j)
      c == CASE i = 0 -> <<0, 0, 0, 0>>
             [] Kind = "P" -> Bytes4(i, j)
             [] Kind = "Q" -> Color3(i, j) \o <<255>>
             [] Kind = "R" -> << Scale(Color3(i, j)[1]), Scale(Color3(i, j)[2]), Scale(Color3(i, j)[3]), 255 >>
  IN IF j = ti THEN [c EXCEPT ![4] = 0] ELSE c
Res == PalResult(s.pal, ti)
Right == /\ Res.ok = Good
         /\ Good => \A j \in 0..255 : Res.col[j + 1] = Entry(j)
\* defining the same thing again changes nothing
Again == \A i \in I : Len(toks) > 0 /\ i = Len(toks) =>
           LET c == Tok(i, toks[i])
           IN PalStep(s.pal, Chunk(c, 0, Len(c)).v) = s.pal

File == LET cs == [i \in I |-> Tok(i, toks[i])]
            k == IF cut < Len(toks) THEN cut ELSE Len(toks)
        IN EHeader(1, 1, 8, ti) \o
           (IF ti > 0 THEN EFrame(0, << >>) ELSE << >>) \o   \* an empty frame in front
           (IF cut = 0 THEN EFrame(10, cs) ELSE EFrame(0, SubSeq(cs, 1, k)) \o EFrame(20, SubSeq(cs, k + 1, Len(cs))))
Emit == Show([op |-> "pal", n |-> Shown, in |-> File,
              exp |-> Result(Good, << [j \in 1..Shown |-> Entry(j - 1)] >>)])
=============================================================================
