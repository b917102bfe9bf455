------------------------------ MODULE MCMemory ------------------------------
(***************************************************************************)
(* What a file has to declare and to contain for memory to be used.  A     *)
(* state is a chain of counted lists, each the last element of the one     *)
(* before: its kind, the count it declares and the number of elements that *)
(* are present.  A reader reserves room for a declared count up to Prealloc*)
(* and grows with the elements it finds; invariant: it stays in Bound.     *)
(* The files are loaded by the library, whose peak has to stay in Bound.   *)
(***************************************************************************)
EXTENDS Chunks, Memory, Encode

CONSTANTS CHAIN, COUNTS, ELEMS

VARIABLE path
vars == <<path>>

\* declared counts, as the bytes of a DWORD
D(c) == CASE c = "none" -> E32(0) [] c = "one" -> E32(1) [] c = "few" -> E32(1000)
          [] c = "word" -> E32(65535) [] c = "2^20" -> <<0, 0, 16, 0>> [] c = "2^28" -> <<0, 0, 0, 16>>
          [] c = "2^31" -> <<0, 0, 0, 128>> [] c = "max" -> <<255, 255, 255, 255>>
\* "slot", "link" and "image" are no lists: a cel of a layer of which index c
\* refers to, one that links to frame c, and an image of c rows and columns
Tops == {"chunks", "tags", "keys", "entries", "packets", "files", "maps", "slot", "link", "image", "tiles"}
Single == {"slot", "link", "image", "tiles"}
Inner(k) == CASE k = "maps" -> {"props"} [] k = "props" -> {"vec", "typed"} [] k = "vec" -> {"vec", "props"}
              [] k = "packets" -> {"colors"} [] OTHER -> {}
D16(c) == SubSeq(IF c \in {"2^20", "2^28", "2^31"} THEN <<0, 128>> ELSE D(c), 1, 2)
\* head of a list
HeadOf(x) ==
  CASE x.k = "chunks"  -> <<>>
    [] x.k = "tags"    -> D16(x.c) \o EZ(8)
    [] x.k = "keys"    -> D(x.c) \o E32(3) \o EZ(4) \o EStr(<<115>>)
    [] x.k = "entries" -> D(x.c) \o E32(0) \o (IF x.c = "few" THEN E32(255) ELSE D(x.c)) \o EZ(8)
    [] x.k = "packets" -> D16(x.c)
    [] x.k = "colors"  -> E8(0) \o SubSeq(D(x.c), 1, 1)
    [] x.k = "files"   -> D(x.c) \o EZ(8)
    [] x.k = "slot"    -> D16(x.c) \o EZ(5) \o E16(0) \o EZ(7) \o E16(1) \o E16(1)
    [] x.k = "link"    -> E16(0) \o EZ(5) \o E16(1) \o EZ(7) \o D16(x.c)
    [] x.k = "image"   -> E16(0) \o EZ(5) \o E16(2) \o EZ(7) \o D16(x.c) \o D16(x.c)
    [] x.k = "tiles"   -> E16(0) \o EZ(5) \o E16(3) \o EZ(7) \o D16(x.c) \o D16(x.c) \o E16(32) \o EZ(26)
    [] x.k = "maps"    -> D(x.c)
    [] x.k = "props"   -> D(x.c)
    [] x.k = "vec"     -> D(x.c) \o E16(0)
    [] x.k = "typed"   -> D(x.c) \o E16(3)
\* a complete element
Elem(k) ==
  CASE k = "chunks"  -> EChunk(8215, <<>>)
    [] k = "tags"    -> ETag(0, 0, 0, 0, <<>>)
    [] k = "keys"    -> EZ(20 + 16 + 8)
    [] k = "entries" -> EZ(6)
    [] k = "packets" -> E8(0) \o E8(1) \o EZ(3)
    [] k = "colors"  -> EZ(3)
    [] k = "files"   -> EZ(12) \o EStr(<<>>)
    [] k = "maps"    -> E32(0) \o E32(0)
    [] k = "props"   -> EStr(<<>>) \o E16(1) \o <<1>>
    [] k = "vec"     -> E16(3) \o <<7>>
    [] k = "typed"   -> <<7>>
    [] k \in Single  -> <<7>>
\* what precedes a list inside another
Link(outer, inner) ==
  CASE outer = "maps"  -> E32(0)
    [] outer = "props" -> EStr(<<>>) \o E16(17)
    [] outer = "vec"   -> E16(IF inner = "props" THEN 18 ELSE 17)
    [] OTHER -> <<>>
Copies(x, n) == Cat([i \in 1..n |-> x])
Content2 ==
  Cat([i \in 1..Len(path) |->
    (IF i = 1 THEN <<>> ELSE Link(path[i - 1].k, path[i].k)) \o HeadOf(path[i]) \o Copies(Elem(path[i].k), path[i].n)])
Payload(body) ==
  CASE path[1].k = "maps" -> EChunk(8224, E32(4) \o E32(Len(body) + 4) \o body)
    [] path[1].k = "tags" -> EChunk(8216, body)
    [] path[1].k = "keys" -> EChunk(8226, body)
    [] path[1].k = "entries" -> EChunk(8217, body)
    [] path[1].k = "packets" -> EChunk(4, body)
    [] path[1].k = "files" -> EChunk(8200, body)
File ==
  LET c == Content2
      head == EHeader(1, 1, 8, 0)
  IN IF path[1].k = "chunks"
     THEN head \o E32(16 + Len(c)) \o E16(61946) \o D16(path[1].c) \o E16(1) \o EZ(2) \o D(path[1].c) \o c
     ELSE IF path[1].k \in Single
     THEN head \o EFrame(1, << EPalette(1, 0, << <<1, 2, 3, 4>> >>), ELayer(1, 0, 0, 255, <<97>>), EChunk(8197, c) >>)
     ELSE head \o EFrame(1, << Payload(c) >>)

X(k, c, n) == [k |-> k, c |-> c, n |-> n]
Init == path \in { <<X(k, c, n)>> : k \in Tops, c \in COUNTS, n \in ELEMS }
Next == /\ Len(path) < CHAIN
        /\ \E k \in Inner(path[Len(path)].k), c \in COUNTS, n \in ELEMS : path' = Append(path, X(k, c, n))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* the reader: an element takes at most PerElem bytes of memory, a list that
\* grows is copied once
PerElem == 112
Reserved(x) == IF x.k \in Single THEN 0 ELSE MemLo(SatVal(D(x.c)), Prealloc \div PerElem) * PerElem
Grown(x) == 3 * PerElem * x.n
Reader == FoldLeft(LAMBDA a, x : a + MaxOf(Reserved(x), Grown(x)), 0, path)
Nest == Len(SelectSeq(path, LAMBDA x : x.k \in {"vec", "typed", "props"}))
Limit == Bound(Len(File), IF path[1].k \in Single THEN 1 ELSE 0, 1, Nest)
Bounded == Reader <= Limit
Emit == Show([op |-> "alloc", in |-> File, bound |-> Limit, exp |-> [st |-> "ok", r |-> <<>>]])
=============================================================================
