------------------------------- MODULE Encode -------------------------------
(***************************************************************************)
(* Builders of files, used by the bounded models (MC*.tla): the inverse    *)
(* direction of Bytes, Chunks and Container, written independently of them *)
(* so that decoding what was encoded is a check of both.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

E8(n)  == << n % 256 >>
E16(n) == LET m == IF n < 0 THEN n + 65536 ELSE n IN << m % 256, m \div 256 >>
E32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
EZ(n)  == [k \in 1..n |-> 0]
EStr(s) == E16(Len(s)) \o s
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

EChunk(ty, payload) == E32(6 + Len(payload)) \o E16(ty) \o payload
\* a frame with its declared numbers of chunks, extra size and magic number
EFrameX(dur, old, new, body, dsize, magic) ==
  E32(16 + Len(body) + dsize) \o E16(magic) \o E16(old) \o E16(dur) \o EZ(2) \o E32(new) \o body
EFrame(dur, chunks) == EFrameX(dur, Len(chunks), 0, Cat(chunks), 0, 61946)
EHeader(w, h, depth, ti) ==
  E32(0) \o E16(42464) \o E16(1) \o E16(w) \o E16(h) \o E16(depth) \o E32(1) \o E16(100) \o EZ(8)
    \o E8(ti) \o EZ(3) \o E16(0) \o E8(1) \o E8(1) \o E16(-3) \o E16(4) \o E16(16) \o E16(17) \o EZ(84)

ELayer(fl, ty, bm, op, name) ==
  EChunk(8196, E16(fl) \o E16(ty) \o E16(0) \o EZ(4) \o E16(bm) \o E8(op) \o EZ(3) \o EStr(name)
               \o (IF ty = 2 THEN E32(0) ELSE <<>>))
ECelHead(li, x, y, ty) == E16(li) \o E16(x) \o E16(y) \o E8(255) \o E16(ty) \o E16(0) \o EZ(5)
ERaw(li, x, y, w, h, px) == EChunk(8197, ECelHead(li, x, y, 0) \o E16(w) \o E16(h) \o px)
EZip(li, x, y, w, h, z) == EChunk(8197, ECelHead(li, x, y, 2) \o E16(w) \o E16(h) \o z)
ELink(li, x, y, f) == EChunk(8197, ECelHead(li, x, y, 1) \o E16(f))
ETilemap(li) == EChunk(8197, ECelHead(li, 0, 0, 3) \o E16(1) \o E16(1) \o E16(32) \o EZ(26))
ETag(from, to, dir, rep, name) ==
  E16(from) \o E16(to) \o E8(dir) \o E16(rep) \o EZ(6) \o <<1, 2, 3>> \o EZ(1) \o EStr(name)
ETags(tags) == EChunk(8216, E16(Len(tags)) \o EZ(8) \o Cat(tags))
ESlice(x, name) == EChunk(8226, E32(1) \o E32(0) \o EZ(4) \o EStr(name) \o E32(0) \o E32(x) \o E32(0) \o E32(1) \o E32(1))
EColorUd(c) == EChunk(8224, E32(2) \o c)
ETextUd(t) == EChunk(8224, E32(1) \o EStr(t))
EPalette(size, first, colors) ==
  EChunk(8217, E32(size) \o E32(first) \o E32(first + Len(colors) - 1) \o EZ(8)
               \o Cat([k \in 1..Len(colors) |-> E16(0) \o colors[k]]))
\* packets <<skip, colors>>
EOld(ty, packets) ==
  EChunk(ty, E16(Len(packets))
             \o Cat([k \in 1..Len(packets) |-> E8(packets[k][1]) \o E8(Len(packets[k][2])) \o Cat(packets[k][2])]))

\* a zlib stream of stored blocks; sum is the checksum <<a, b>>
EStored(blocks, sum) ==
  <<120, 1>> \o Cat([k \in 1..Len(blocks) |->
       E8(IF k = Len(blocks) THEN 1 ELSE 0) \o E16(Len(blocks[k])) \o E16(65535 - Len(blocks[k])) \o blocks[k]])
    \o << sum[2] \div 256, sum[2] % 256, sum[1] \div 256, sum[1] % 256 >>

\* a behaviour for the implementation
Result(ok, v) == IF ok THEN [st |-> "ok", r |-> <<v>>] ELSE [st |-> "err", r |-> <<>>]
Show(x) == PrintT(ToJson(x))
=============================================================================
