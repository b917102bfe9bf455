----------------------------- MODULE MCInflate ------------------------------
(***************************************************************************)
(* Streams of at most BLOCKS blocks of every kind, built token by token by *)
(* the encoder of Deflate, then closed, with one fault or none: the        *)
(* inflate machine returns what the tokens say.                            *)
(***************************************************************************)
EXTENDS Inflate, Deflate, Encode

CONSTANTS BLOCKS, TOKENS, KINDS, LITS, LENS, DISTS, FAULTS, FAULTTOKENS, DELTAS

VARIABLES xs,      \* blocks so far, the last one open: [k: kind, t: tokens]
          w, hp,   \* the bits of the blocks, none final; where the last one begins
          fault,   \* "open" while building
          delta,   \* expected length minus actual length
          z, out, s
vars == <<xs, w, hp, fault, delta, z, out, s>>

\* a complete code for all bytes, the end and lengths 3, 4, 10, 11-12, 258, and for all
\* distances up to 8: 254 of 8 bits, 2 of 9 bits with the end, ...
DynLit == [k \in 1..286 |-> IF k <= 240 THEN 8
                            ELSE IF k <= 256 THEN 9
                            ELSE IF k \in {257, 258, 259, 265, 266} THEN 8
                            ELSE IF k = 286 THEN 8 ELSE 0]
\* 240 + 8 + 5 + 1 = 254 of 256; two more codes of 8 bits
DynLitC == [DynLit EXCEPT ![267] = 8, ![268] = 8]
DynDist == [k \in 1..6 |-> IF k <= 2 THEN 2 ELSE IF k <= 4 THEN 3 ELSE 3]
\* a single distance code of one bit
OneDist == <<1>>
\* 15 bit codes
LongLit == [k \in 1..257 |-> IF k <= 15 THEN k ELSE IF k = 257 THEN 15 ELSE 0]
NoDist == <<0>>

Raw(k, l, d, r) == [k |-> k, t |-> <<>>, ll |-> Code(l), dl |-> Code(d), h |-> DynHeader(l, d, r)]
BDyn  == Raw("dyn", DynLitC, DynDist, FALSE)
BRle  == Raw("rle", DynLitC, DynDist, TRUE)
BOne  == Raw("rle", DynLitC, OneDist, TRUE)
BLong == Raw("dyn", LongLit, NoDist, FALSE)
BFixed == [k |-> "fixed", t |-> <<>>, ll |-> FixedLit, dl |-> FixedDist, h |-> <<>>]
BOver == [BDyn EXCEPT !.h = DynHeader([DynLitC EXCEPT ![260] = 8], DynDist, FALSE)]
\* the variable xs holds the names of blocks
Block(k) ==
  CASE k = "dyn"  -> BDyn
    [] k = "rle"  -> BRle
    [] k = "one"  -> BOne
    [] k = "long" -> BLong
    [] k = "fixed" -> BFixed
    [] k = "stored" -> [k |-> k, t |-> <<>>, ll |-> <<>>, dl |-> <<>>, h |-> <<>>]
Full(x) == [Block(x.k) EXCEPT !.t = x.t]
Fulls(ys) == [i \in 1..Len(ys) |-> Full(ys[i])]
HasDist(x, d) == IF x.k = "stored" THEN FALSE
                 ELSE LET c == Block(x.k).dl
                          k == DistClass(d)[1] + 1
                      IN IF k <= Len(c) THEN c[k] # <<>> ELSE FALSE
HasLen(x, n) == LET c == Block(x.k).ll
                    k == LenClass(n)[1] + 1
                IN IF k <= Len(c) THEN c[k] # <<>> ELSE FALSE
HasLit(x, v) == IF x.k \in {"stored", "fixed"} THEN TRUE ELSE Block(x.k).ll[v + 1] # <<>>
Tokens == FoldLeft(LAMBDA a, x : a + Len(x.t), 0, xs)

Init == xs = <<>> /\ w = <<>> /\ hp = 0 /\ fault = "open" /\ delta = 0 /\ z = <<>> /\ out = <<>> /\ s = <<>>
NewBlock == /\ fault = "open" /\ Len(xs) < BLOCKS
            /\ \E k \in KINDS : xs' = Append(xs, [k |-> k, t |-> <<>>])
            /\ w' = StreamBits(Fulls(xs'), 0)
            /\ hp' = Len(w) + 1
            /\ UNCHANGED <<fault, delta, z, out, s>>
Put(t) == xs' = [xs EXCEPT ![Len(xs)].t = Append(@, t)]
Token == /\ fault = "open" /\ xs # <<>> /\ Tokens < TOKENS
         /\ \/ \E v \in LITS : HasLit(xs[Len(xs)], v) /\ Put(<<v>>)
            \/ \E n \in LENS : \E d \in DISTS :
                 /\ HasDist(xs[Len(xs)], d) /\ HasLen(xs[Len(xs)], n)
                 /\ d <= Len(ExpandAll(xs))
                 /\ Put(<<n, d>>)
         /\ w' = StreamBits(Fulls(xs'), 0)
         /\ hp' = hp
         /\ UNCHANGED <<fault, delta, z, out, s>>
\* faults of the stream
Whole == [w EXCEPT ![hp] = 1]
\* the stream continued with more bits
More(o, bits) == ZBits(120, 156, w \o bits, 0, SumOf(o))
Bad(o, f) ==
  LET g == ZBits(120, 156, Whole, 0, SumOf(o))
      n == Len(g)
  IN CASE f = "none"     -> g
       [] f = "pad"      -> ZBits(120, 156, Whole, 1, SumOf(o))            \* padding bits are free
       [] f = "trail"    -> g \o <<0, 255, 3>>                             \* bytes behind the stream
       [] f = "level"    -> [g EXCEPT ![2] = 1]                            \* FLEVEL does not matter
       [] f = "window"   -> [g EXCEPT ![1] = 104, ![2] = 129]              \* nor does a smaller window here
       [] f = "adler"    -> [g EXCEPT ![n] = (@ + 1) % 256]
       [] f = "adler2"   -> [g EXCEPT ![n - 3] = (@ + 1) % 256]
       [] f = "cut1"     -> SubSeq(g, 1, n - 1)
       [] f = "cut4"     -> SubSeq(g, 1, n - 4)
       [] f = "cut5"     -> SubSeq(g, 1, n - 5)
       [] f = "fcheck"   -> [g EXCEPT ![2] = 157]
       [] f = "method"   -> [g EXCEPT ![1] = 119, ![2] = 31 - ((119 * 256) % 31)]
       [] f = "nofinal"  -> ZBits(120, 156, w, 0, SumOf(o))
       [] f = "far"      -> More(o, <<1, 1, 0>> \o PairBits(FixedLit, FixedDist, 3, Len(o) + 1) \o HuffBits(FixedLit, 256))
       [] f = "type3"    -> More(o, <<1, 1, 1>>)
       [] f = "sym286"   -> More(o, <<1, 1, 0>> \o HuffBits(FixedLit, 286) \o MsbBits(0, 5) \o HuffBits(FixedLit, 256))
       [] f = "dist30"   -> More(o, <<1, 1, 0>> \o HuffBits(FixedLit, 257) \o MsbBits(30, 5) \o HuffBits(FixedLit, 256))
       [] f = "nlen"     -> ZBits(120, 156, PadBits(w \o <<1, 0, 0>>, 0) \o LsbBits(1, 16) \o LsbBits(65535, 16) \o LsbBits(7, 8), 0, SumOf(o))
       [] f = "over"     -> More(o, <<1, 0, 1>> \o BOver.h \o HuffBits(BOver.ll, 256))   \* more codes than fit
       [] f = "rep0"     -> \* repeats a length that is not there
            More(o, <<1, 0, 1>> \o LsbBits(29, 5) \o LsbBits(5, 5) \o LsbBits(15, 4)
                    \o CatBits([i \in 1..19 |-> LsbBits(ClLens(TRUE)[ClOrder0[i] + 1], 3)])
                    \o HuffBits(ClCodeRle, 16) \o LsbBits(0, 2) \o EZ(80))
Harmless == {"none", "pad", "trail", "level", "window"}
Close == /\ fault = "open" /\ xs # <<>>
         /\ \E f \in FAULTS : \E d \in DELTAS :
              /\ d = 0 \/ f = "none"
              /\ f = "none" \/ Tokens <= FAULTTOKENS
              /\ fault' = f
              /\ LET o == ExpandAll(xs)
                     b == Bad(o, f)
                 IN /\ Len(o) + d >= 1
                    /\ out' = o
                    /\ z' = b
                    /\ s' = IStart(b)
              /\ delta' = d
         /\ UNCHANGED <<xs, w, hp>>
Step == /\ fault # "open" /\ ~IDone(s)
        /\ s' = IStep(z, Len(out) + delta, s)
        /\ UNCHANGED <<xs, w, hp, fault, delta, z, out>>
Next == NewBlock \/ Token \/ Close \/ Step
Spec == Init /\ [][Next]_vars

DeltasQ == {-1, 0, 1}
Closed == fault # "open" /\ (IF fault # "open" THEN IDone(s) ELSE FALSE)
IPrefix(a, c) == Len(a) <= Len(c) /\ SubSeq(c, 1, Len(a)) = a
Right == Closed =>
  IF fault \in Harmless THEN
       IF delta >= 0 THEN s.st = "ok" /\ s.out = out ELSE s.st = "long"
  ELSE s.st \in {"bad", "long"}
\* never other bytes than those of the tokens before the fault
Prefix == fault # "open" => fault \in {"method", "nlen"} \/ IPrefix(s.out, out) \/ fault = "nofinal"
Sums == Closed /\ s.st = "ok" => Adler(out) = SumOf(out)
\* "cut5" may leave a stream whose last block is complete by chance: it never has a checksum
Emit == Closed => Show([op |-> "inflate", in |-> z, n |-> Len(out) + delta,
                        exp |-> IF s.st = "ok" /\ delta = 0 THEN [st |-> "ok", r |-> <<out>>]
                                ELSE [st |-> "err", r |-> <<"data">>]])
=============================================================================
