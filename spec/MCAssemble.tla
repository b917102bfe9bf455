----------------------------- MODULE MCAssemble -----------------------------
(***************************************************************************)
(* All sequences of at most DEPTH chunks and frame boundaries: the machine *)
(* of Assemble against a declarative account of order, slots and ownership *)
(* of user data.  Every element carries its index in the sequence.         *)
(***************************************************************************)
EXTENDS Container, Assemble, Encode, FiniteSets

CONSTANTS DEPTH

VARIABLES toks, b, fr, s      \* tokens; bytes so far; start of the frame; machine
vars == <<toks, b, fr, s>>

Tokens == {"L", "C0", "C1", "G2", "G0", "S", "U", "P", "Q", "X", "F"}
Tok(i, t) ==
  CASE t = "L"  -> ELayer(1, 0, 0, i, <<76>>)
    [] t = "C0" -> ERaw(0, i, 0, 0, 0, <<>>)
    [] t = "C1" -> ERaw(1, i, 0, 0, 0, <<>>)
    [] t = "G2" -> ETags(<< ETag(i, i + 100, 0, 1, <<71>>), ETag(i, i + 200, 1, 0, <<>>) >>)
    [] t = "G0" -> ETags(<<>>)
    [] t = "S"  -> ESlice(i, <<83>>)
    [] t = "U"  -> EColorUd(<<i, 0, 0, 255>>)
    [] t = "P"  -> EPalette(1, 0, << <<i, i, i, i>> >>)
    [] t = "Q"  -> EOld(4, << <<0, << <<i, i, i>> >> >> >>)
    [] t = "X"  -> EChunk(4660, <<i>>)

\* frame headers with sizes and counts for what b has from position p on
Closed(bs, p, n) ==
  SubSeq(bs, 1, p) \o E32(Len(bs) - p) \o SubSeq(bs, p + 5, p + 6) \o E16(n) \o SubSeq(bs, p + 9, Len(bs))
Open(bs, dur) == bs \o EFrame(dur, <<>>)
InFrame == Len(SelectSeq(toks, LAMBDA t : t = "F"))
CountHere(ts) == FoldLeft(LAMBDA a, t : IF t = "F" THEN 0 ELSE a + 1, 0, ts)

Init ==
  /\ toks = <<>>
  /\ fr = 128
  /\ b = Open(EHeader(2, 2, 32, 0), 1)
  /\ s = AStart
Put1(t) ==
  LET i == Len(toks) + 1
      b1 == b \o Tok(i, t)
      c == Chunk(b1, Len(b), Len(b1))
  IN /\ b' = Closed(b1, fr, CountHere(toks) + 1)
     /\ c.ok /\ s' = AChunk(s, c.v)
     /\ fr' = fr
NextFrame ==
  LET i == Len(toks) + 1
  IN /\ b' = Open(b, 1 + i)
     /\ fr' = Len(b)
     /\ s' = AEndFrame(s, IF s.f = 1 THEN 1 ELSE U16(b, fr + 8))
Next ==
  /\ Len(toks) < DEPTH
  /\ \E t \in Tokens : toks' = Append(toks, t) /\ IF t = "F" THEN NextFrame ELSE Put1(t)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Declarative account
I == 1..Len(toks)
FrameOf(i) == 1 + Cardinality({j \in 1..i : toks[j] = "F"})
At(t) == SelectSeq([i \in I |-> i], LAMBDA i : toks[i] \in t)
\* number of user data tokens that end in i, and the token before them
RunOf(i) == CHOOSE k \in 1..i : (\A j \in (i - k + 1)..i : toks[j] = "U") /\ (k = i \/ toks[i - k] # "U")
Before(i) == i - RunOf(i)
\* owners as <<index of the owning token, number of the tag>>; <<0, 0>> is nobody
SpriteClaims == {i \in I : toks[i] = "U" /\ RunOf(i) = 1 /\ Before(i) > 0 /\ FrameOf(i) = 1 /\ toks[Before(i)] \in {"P", "Q"}}
OwnerOf(i) ==
  LET k == RunOf(i)
      h == Before(i)
  IN IF h = 0 THEN <<0, 0>>
     ELSE IF toks[h] \in {"L", "C0", "C1", "S"} THEN IF k = 1 THEN <<h, 0>> ELSE <<0, 0>>
     ELSE IF toks[h] = "G2" THEN IF k <= 2 THEN <<h, k>> ELSE <<0, 0>>
     ELSE IF i \in SpriteClaims /\ \A j \in SpriteClaims : j >= i THEN <<-1, 0>>
     ELSE <<0, 0>>
UdFor(o) == LET us == SelectSeq(At({"U"}), LAMBDA i : OwnerOf(i) = o)
            IN [k \in 1..Len(us) |-> us[k]]
IdOf(ud) == IF ud = <<>> THEN <<>> ELSE << ud[1].color[1][1] >>

EndNow == AEndFrame(s, 0)
LayersRight == LET at == At({"L"}) IN
  /\ Len(s.layers) = Len(at)
  /\ \A k \in 1..Len(at) : s.layers[k].op = at[k] /\ IdOf(s.layers[k].ud) = UdFor(<<at[k], 0>>)
SlicesRight == LET at == At({"S"}) IN
  /\ Len(s.slices) = Len(at)
  /\ \A k \in 1..Len(at) : s.slices[k].keys[1].x[1] = at[k] /\ IdOf(s.slices[k].ud) = UdFor(<<at[k], 0>>)
TagsRight == LET at == At({"G2"}) IN
  /\ Len(s.tags) = 2 * Len(at)
  /\ \A k \in 1..Len(at) : \A j \in 1..2 :
       LET t == s.tags[2 * (k - 1) + j]
       IN t.from = at[k] /\ t.to = at[k] + 100 * j /\ IdOf(t.ud) = UdFor(<<at[k], j>>)
SpriteRight == IdOf(s.ud) = UdFor(<<-1, 0>>)
\* the last cel of a layer in a frame fills its slot
CelsIn(f, l) == SelectSeq(At({IF l = 0 THEN "C0" ELSE "C1"}), LAMBDA i : FrameOf(i) = f)
R == AResult([hdr |-> [dk |-> "Rgba", ti |-> 0], frames |-> <<>>], EndNow)
SlotsRight ==
  LET n == Len(At({"L"}))
      bad == \E i \in I : (toks[i] = "C0" /\ n < 1) \/ (toks[i] = "C1" /\ n < 2)
  IN /\ R.ok = ~bad
     /\ R.ok => /\ Len(R.v.frames) = 1 + Len(At({"F"}))
                /\ \A f \in 1..Len(R.v.frames) :
                     LET cs == R.v.frames[f].cels
                     IN /\ Len(cs) = n
                        /\ \A l \in 1..n :
                             IF l > 2 \/ CelsIn(f, l - 1) = <<>> THEN cs[l] = <<>>
                             ELSE LET i == Last0(CelsIn(f, l - 1))
                                  IN cs[l] # <<>> /\ cs[l][1].x = i /\ IdOf(cs[l][1].ud) = UdFor(<<i, 0>>)
\* the whole file, read by the container machine, gives the same document
Whole == LET c == CRun(b) IN c.st = "ok" /\ ARun(RawFile(c)) = [EndNow EXCEPT !.done = Append(s.done, [dur |-> U16(b, fr + 8), cels |-> s.cels])]
Emit == LET raw == RawFile(CRun(b))
            x == AResult(raw, ARun(raw))
        IN Show([op |-> "file", in |-> b, exp |-> Result(x.ok, [x.v EXCEPT !.hdr = raw.hdr] @@ [pal |-> <<>>])])
=============================================================================
