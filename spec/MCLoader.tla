------------------------------ MODULE MCLoader ------------------------------
(***************************************************************************)
(* Documents with FRAMES frames and LAYERS layers: every layer kind and    *)
(* every content of every slot, chosen slot by slot.  The view of the      *)
(* document against a declarative account.  Image i has width i + 1, so    *)
(* that cels tell which image they refer to.                               *)
(***************************************************************************)
EXTENDS Container, Loader, Encode, FiniteSets

CONSTANTS FRAMES, LAYERS, KINDS, LTYPES, TAGSETS

VARIABLES lt, slots, tg     \* layer types; contents of the slots filled so far; tags
vars == <<lt, slots, tg>>

SlotNo(f, l) == (f - 1) * LAYERS + l
Full == Len(slots) = FRAMES * LAYERS
At(f, l) == slots[SlotNo(f, l)]
\* number of image cels before slot k
ImagesBefore(k) == Cardinality({j \in 1..(k - 1) : slots[j] = "img"})
X(k) == 100 * k - 250
CelBytes(k, f, l) ==
  CASE slots[k] = "none"  -> <<>>
    [] slots[k] = "img"   -> ERaw(l - 1, X(k), k - 3, ImagesBefore(k) + 1, 2, <<k>>)
    [] slots[k] = "link0" -> ELink(l - 1, X(k), k - 3, 0)
    [] slots[k] = "link1" -> ELink(l - 1, X(k), k - 3, 1)
    [] slots[k] = "link2" -> ELink(l - 1, X(k), k - 3, 2)
    [] slots[k] = "link9" -> ELink(l - 1, X(k), k - 3, 9)
    [] slots[k] = "tile"  -> ETilemap(l - 1)
    [] slots[k] = "odd"   -> EChunk(8197, ECelHead(l - 1, 0, 0, 7))
LayerBytes(l) == ELayer(l % 2, lt[l], 19 - l, 10 * l, <<64 + l>>)
\* cels are stored in descending layer order in even frames
FrameBytes(f) ==
  LET order == [l \in 1..LAYERS |-> IF f % 2 = 0 THEN LAYERS + 1 - l ELSE l]
      cels == SelectSeq([i \in 1..LAYERS |-> CelBytes(SlotNo(f, order[i]), f, order[i])], LAMBDA c : c # <<>>)
      tags == IF f = 1 /\ tg # <<>> THEN << ETags([i \in 1..Len(tg) |-> ETag(tg[i][1], tg[i][2], tg[i][3], tg[i][4], <<84, 48 + i>>)]) >> ELSE <<>>
      ls == IF f = 1 THEN [l \in 1..LAYERS |-> LayerBytes(l)] ELSE <<>>
  IN EFrame(30 + f, ls \o tags \o cels)
File == EHeader(7, 9, 32, 0) \o Cat([f \in 1..FRAMES |-> FrameBytes(f)])

Init == lt \in [1..LAYERS -> LTYPES] /\ slots = <<>> /\ tg \in TAGSETS
Next == ~Full /\ \E x \in KINDS : slots' = Append(slots, x) /\ UNCHANGED <<lt, tg>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Doc == ARun(RawFile(CRun(File)))
DocV == AResult(RawFile(CRun(File)), Doc).v
\* the slot a cel takes its image from, 0 for none
Source(f, l) ==
  LET y == CASE At(f, l) = "link0" -> 1 [] At(f, l) = "link1" -> 2 [] OTHER -> 3
  IN CASE At(f, l) = "img" -> SlotNo(f, l)
       [] At(f, l) \in {"link0", "link1", "link2"} /\ y <= FRAMES /\ (IF y <= FRAMES THEN At(y, l) = "img" ELSE FALSE) -> SlotNo(y, l)
       [] OTHER -> 0
Loads == \A f \in 1..FRAMES : \A l \in 1..LAYERS : At(f, l) = "none" \/ Source(f, l) # 0
Exp(l) == lt[l] \in {0, 1}
Place(l) == Cardinality({j \in 1..(l - 1) : Exp(j)})
CelsOf(f) == SelectSeq([l \in 1..LAYERS |-> l], LAMBDA l : Exp(l) /\ At(f, l) # "none")
Right ==
  Full =>
    /\ LoadOk(DocV) = Loads
    /\ Loads =>
       LET v == View(DocV, LAMBDA x : BN(File, x[1], x[2]))
       IN /\ Len(v.layers) = Cardinality({l \in 1..LAYERS : Exp(l)})
          /\ \A l \in 1..LAYERS : Exp(l) =>
               LET y == v.layers[Place(l) + 1]
               IN y.name = <<64 + l>> /\ y.op = 10 * l /\ y.vis = l % 2 /\ y.lk = LayerTypes[lt[l] + 1]
                  /\ IF l = 1 THEN y.bk = "Divide" ELSE y.bk = BlendNames[20 - l]
          /\ v.nimg = ImagesBefore(Len(slots) + 1)
          /\ \A i \in 1..v.nimg : v.images[i].w = i /\ v.images[i].h = 2
          /\ Len(v.frames) = FRAMES
          /\ \A f \in 1..FRAMES :
               /\ v.frames[f].dur = 30 + f
               /\ Len(v.frames[f].cels) = Len(CelsOf(f))
               /\ \A i \in 1..Len(CelsOf(f)) :
                    LET l == CelsOf(f)[i]
                        c == v.frames[f].cels[i]
                        src == Source(f, l)
                    IN c = [x |-> X(SlotNo(f, l)), y |-> SlotNo(f, l) - 3, l |-> Place(l),
                            i |-> ImagesBefore(src), w |-> ImagesBefore(src) + 1, h |-> 2]
          /\ Len(v.tags) = Len(tg)
          /\ \A i \in 1..Len(tg) :
               LET t == v.tags[i]
               IN /\ t.from = tg[i][1] /\ t.to = tg[i][2] /\ t.name = <<84, 48 + i>>
                  /\ t.rep = IF tg[i][4] = 0 THEN <<>> ELSE <<tg[i][4]>>
                  /\ IF tg[i][3] > 3 THEN t.dk = "Unknown" /\ t.dv = tg[i][3] ELSE t.dk = Directions[tg[i][3] + 1]
Emit == Full => Show([op |-> "view", in |-> File,
                      exp |-> Result(LoadOk(DocV), View(DocV, LAMBDA x : BN(File, x[1], x[2])))])
TagsQ == { <<>>, << <<0, 1, 0, 0>>, <<5, 700, 3, 2>>, <<1, 1, 4, 65535>> >> }
=============================================================================
