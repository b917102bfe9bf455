------------------------------- MODULE MCSkip -------------------------------
(***************************************************************************)
(* All sequences of at most DEPTH harmless perturbations (module Skip) of  *)
(* two documents: what is loaded stays the same, however the ignored       *)
(* content looks (it is built to resemble content that counts).            *)
(***************************************************************************)
EXTENDS Container, Loader, Skip, Encode

CONSTANTS DEPTH, JUNK, EXTRA, BASES

\* sep: an ignored chunk has come between user data and its owner
VARIABLES base, frames, trail, head, enc, n, sep
vars == <<base, frames, trail, head, enc, n, sep>>

Ty(c) == c[5] + 256 * c[6]
Ud(i) == EColorUd(<<i, 2, 3, 4>>)
Cols(i) == << <<i, 2, 3, 255>>, <<4, i, 6, 255>>, <<7, 8, i, 128>> >>
Stream == EStored(<< <<9, 9, 9, 9, 8, 8, 8, 8>> >>, <<69, 316>>)
\* the chunks of the frames of the documents
Doc1 == << << EPalette(3, 0, Cols(1)), Ud(1), ELayer(1, 0, 0, 255, <<97>>), ETextUd(<<120, 121>>),
              ELayer(1, 0, 3, 200, <<98>>),
              ETags(<< ETag(0, 1, 0, 2, <<116>>), ETag(1, 1, 1, 0, <<>>) >>), Ud(2), Ud(3),
              ESlice(5, <<115>>), Ud(4), ERaw(0, 0, 0, 2, 1, <<1, 2, 3, 4, 5, 6, 7, 255>>), Ud(5),
              EZip(1, 1, -1, 1, 2, Stream) >>,
           << ELink(0, -1, 0, 0), Ud(6), ERaw(1, 0, 0, 1, 1, <<50, 60, 70, 80>>) >> >>
Rgbs(i) == << <<i, 2, 3>>, <<4, i, 6>>, <<7, 8, i>> >>
Doc2 == << << EOld(4, << <<1, Rgbs(7)>> >>), ELayer(1, 0, 0, 128, <<97>>), ERaw(0, 0, 0, 2, 2, <<0, 1, 2, 3>>) >>,
           <<>>, << EOld(4, << <<0, Rgbs(9)>>, <<3, Rgbs(11)>> >>), ELink(0, 1, 1, 0) >> >>
Base == IF base = 1 THEN Doc1 ELSE Doc2

\* ignored chunks
Junk(j) ==
  CASE j = "empty"   -> EChunk(4660, <<>>)
    [] j = "layer"   -> EChunk(8201, SubSeq(ELayer(1, 0, 0, 9, <<122>>), 7, 23))
    [] j = "ud"      -> EChunk(8225, SubSeq(Ud(99), 7, 14))
    [] j = "zero"    -> EChunk(0, ELayer(1, 0, 0, 9, <<122>>))
    [] j = "max"     -> EChunk(65535, EFrame(1, <<>>))
    [] j = "path"    -> EChunk(8215, <<1, 2, 3, 4, 5, 6, 7>>)
    [] j = "extra"   -> EChunk(8198, E32(1) \o EZ(16))
    [] j = "profile" -> EChunk(8199, E16(1) \o E16(1) \o E32(65536) \o EZ(8))
    [] j = "files"   -> EChunk(8200, E32(1) \o EZ(8) \o E32(7) \o E8(0) \o EZ(7) \o EStr(<<120>>))
    [] j = "mask"    -> EChunk(8214, E16(1) \o E16(2) \o E16(8) \o E16(1) \o EZ(8) \o EStr(<<109>>) \o <<170>>)
    [] j = "tileset" -> EChunk(8227, E32(0) \o E32(4) \o E32(1) \o E16(1) \o E16(1) \o E16(1) \o EZ(14) \o EStr(<<115>>))
Junks == IF JUNK = "some" THEN {"empty", "layer", "ud", "extra", "path"}
         ELSE {"empty", "layer", "ud", "zero", "max", "path", "extra", "profile", "files", "mask", "tileset"}
\* ignored bytes
\* one more element of what the chunk c lists
Element(c) ==
  CASE Ty(c) = 8216 -> ETag(0, 0, 0, 0, <<>>)
    [] Ty(c) = 8217 -> E16(0) \o <<1, 2, 3, 4>>
    [] Ty(c) = 4    -> <<0, 1, 5, 6, 7>>
    [] Ty(c) = 8226 -> EZ(20)
    [] Ty(c) = 8224 -> <<9, 9, 9, 9>>
    [] Ty(c) = 8196 -> E32(1)
    [] OTHER        -> EZ(17)
More(x, c) ==
  CASE x = "byte"  -> <<255>>
    [] x = "elem"  -> Element(c)
    [] x = "layer" -> ELayer(1, 0, 0, 9, <<122>>)
    [] x = "frame" -> EFrame(7, <<>>)
    [] x = "ud"    -> Ud(98)
Extras == IF EXTRA = "some" THEN {"byte", "layer"} ELSE {"byte", "layer", "frame", "ud"}
Elems == IF EXTRA = "some" THEN {"byte", "elem"} ELSE {"byte", "layer", "frame", "ud", "elem"}

\* offsets of reserved and deprecated bytes
RECURSIVE TagOffsets(_, _)
TagOffsets(c, p) == IF p + 19 > Len(c) THEN {}
                    ELSE (p + 7)..(p + 12) \cup {p + 16} \cup TagOffsets(c, p + 19 + c[p + 18] + 256 * c[p + 19])
Reserved(c) ==
  LET ty == Ty(c)
  IN CASE ty = 8196 -> 12..15 \cup 19..21
       [] ty = 8197 -> 17..21
       [] ty = 8216 -> 8..15 \cup TagOffsets(c, 16)
       [] ty = 8217 -> 6..9 \cup 18..25
       [] ty = 8226 -> 14..17
       [] OTHER -> {}
Scribble(c) == LET o == Reserved(c) IN [k \in 1..Len(c) |-> IF (k - 1) \in o THEN 255 ELSE c[k]]
Longer(c, x) == LET d == c \o x IN E32(Len(d)) \o SubSeq(d, 5, Len(d))

\* header: 1 scribbles over the reserved bytes behind the transparent index,
\* 2 over the ones at the end, 4 over the deprecated speed
Has(h, v) == (h \div v) % 2 = 1
HeaderBytes ==
  LET b == EHeader(2, 2, IF base = 1 THEN 32 ELSE 8, 1)
  IN [k \in 1..128 |-> IF \/ Has(head, 1) /\ k \in 30..32
                          \/ Has(head, 2) /\ k \in 45..128
                          \/ Has(head, 4) /\ k \in 19..20
                       THEN 171 ELSE b[k]]
\* numbers of chunks: only the old field, only the new one, both, or the old
\* one at its maximum
FrameBytes(f) ==
  LET k == Len(frames[f])
      body == Cat(frames[f])
      e == enc[f]
      old == CASE e = 0 -> k [] e = 1 -> 0 [] e = 2 -> k [] e = 3 -> 65535
  IN EFrameX(10 * f, old, IF e = 0 THEN 0 ELSE k, body \o trail[f], 0, 61946)
File == HeaderBytes \o Cat([f \in 1..Len(frames) |-> FrameBytes(f)])

Init ==
  /\ base \in BASES
  /\ frames = Base
  /\ trail = [f \in 1..Len(Base) |-> <<>>]
  /\ head = 0 /\ n = 0 /\ sep = FALSE
  /\ enc = [f \in 1..Len(Base) |-> 0]

Types == [f \in 1..Len(frames) |-> [k \in 1..Len(frames[f]) |-> Ty(frames[f][k])]]
F == 1..Len(frames)
\* an operation in the terms of Skip; links may grow (type 1 stands for them)
Op(o, f, at, ty) == [op |-> o, f |-> f - 1, at |-> at, ty |-> ty]
May(o, f, at, ty) == Harmless(Types, Op(o, f, at, ty)) = TRUE
Insert == \E f \in F, j \in Junks : \E at \in 0..Len(frames[f]) :
            /\ sep' = (sep \/ ~Harmless(Types, Op("insert", f, at, Ty(Junk(j)))))
            /\ frames' = [frames EXCEPT ![f] = TypeAt(@, at, Junk(j), 1)]
            /\ UNCHANGED <<trail, head, enc>>
Kind(c) == IF Ty(c) = CelType /\ Len(c) >= 15 THEN IF c[14] \in {1, 2} THEN c[14] ELSE CelType ELSE Ty(c)
Grow == \E f \in F, x \in Elems : \E at \in 0..(Len(frames[f]) - 1) :
            /\ May("grow", f, at, Kind(frames[f][at + 1]))
            /\ frames' = [frames EXCEPT ![f][at + 1] = Longer(@, More(x, @))]
            /\ UNCHANGED <<trail, head, enc, sep>>
Reserve == \E f \in F : \E at \in 0..(Len(frames[f]) - 1) :
            /\ May("reserved", f, at, 0) /\ Scribble(frames[f][at + 1]) # frames[f][at + 1]
            /\ frames' = [frames EXCEPT ![f][at + 1] = Scribble(@)]
            /\ UNCHANGED <<trail, head, enc, sep>>
Trail == \E f \in F, x \in Extras :
            /\ May("trail", f, 0, 0) /\ Len(trail[f]) < 40
            \* an empty frame with the old number only: 0 chunks in either encoding
            /\ trail' = [trail EXCEPT ![f] = @ \o More(x, EChunk(0, <<>>))]
            /\ UNCHANGED <<frames, head, enc, sep>>
Header == \E v \in {1, 2, 4} : ~Has(head, v) /\ head' = head + v /\ UNCHANGED <<frames, trail, enc, sep>>
Recount == \E f \in F, e \in 1..3 :
            /\ enc[f] = 0 /\ frames[f] # <<>>
            /\ enc' = [enc EXCEPT ![f] = e] /\ UNCHANGED <<frames, trail, head, sep>>
Next == n < DEPTH /\ n' = n + 1 /\ UNCHANGED base /\ (Insert \/ Grow \/ Reserve \/ Trail \/ Header \/ Recount)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* what is loaded, with ranges of the input replaced by their content
At2(b, r) == BN(b, r[1], r[2])
UdsAt(b, u) == Map(LAMBDA x : [x EXCEPT !.text = Map(LAMBDA r : At2(b, r), @)], u)
NamedAt(b, xs) == Map(LAMBDA x : [x EXCEPT !.name = At2(b, @), !.ud = UdsAt(b, @)], xs)
\* a compressed image ends with its stream
Cut(x) == IF x.comp = 1 THEN [x EXCEPT !.data = SubSeq(@, 1, Len(Stream))] ELSE x
Loaded(b) ==
  LET raw == RawFile(CRun(b))
      r == AResult(raw, ARun(raw))
      w == View(r.v, LAMBDA x : At2(b, x))
  IN IF ~r.ok THEN <<>> ELSE <<
     [layers |-> NamedAt(b, r.v.layers), tags |-> NamedAt(b, r.v.tags), slices |-> NamedAt(b, r.v.slices),
      ud |-> UdsAt(b, r.v.ud), pal |-> r.pal,
      frames |-> MapCels(LAMBDA c : Cut([c EXCEPT !.data = At2(b, @), !.ud = UdsAt(b, @)]), r.v.frames),
      view |-> IF LoadOk(r.v) THEN <<[w EXCEPT !.images = Map(LAMBDA i : Cut([i EXCEPT !.data = At2(b, @)]), @), !.slices = NamedAt(b, @)]>> ELSE <<>>] >>
Plain(d, k) == EHeader(2, 2, IF k = 1 THEN 32 ELSE 8, 1) \o Cat([f \in 1..Len(d) |-> EFrame(10 * f, d[f])])
Wanted == << Loaded(Plain(Doc1, 1)), Loaded(Plain(Doc2, 2)) >>
ASSUME \A k \in 1..2 : Wanted[k] # <<>> /\ Wanted[k][1].view # <<>>
\* what is left when user data is not looked at
NoUds(w) == IF w = <<>> THEN w ELSE
  LET No(x) == [x EXCEPT !.ud = <<>>]
      v == w[1]
  IN << [v EXCEPT !.ud = <<>>, !.layers = Map(No, @), !.tags = Map(No, @), !.slices = Map(No, @), !.frames = MapCels(No, @),
                   !.view = Map(LAMBDA y : [y EXCEPT !.slices = Map(No, @)], @)] >>
Same == IF sep THEN NoUds(Loaded(File)) = NoUds(Wanted[base]) ELSE Loaded(File) = Wanted[base]
Emit ==
  LET b == File
      raw == RawFile(CRun(b))
      r == AResult(raw, ARun(raw))
  IN /\ Show([op |-> "file", in |-> b, exp |-> Result(r.ok, r.v @@ [pal |-> <<>>])])
     /\ Show([op |-> "view", in |-> b, exp |-> Result(LoadOk(r.v), View(r.v, LAMBDA x : At2(b, x)))])
     /\ (base = 2 => Show([op |-> "pal", n |-> 16, in |-> b, exp |-> Result(r.ok, <<SubSeq(r.pal[1], 1, 16)>>)]))
=============================================================================
