----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* The container: a 128 byte header and frames that fill the rest.  A      *)
(* machine that reads one frame per step:                                  *)
(*   [st |-> "frames" | "ok" | "err", p |-> position, hdr, frames, deep]   *)
(* deep says whether some properties nest beyond the supported depth.      *)
(***************************************************************************)
EXTENDS Chunks

HeaderSize == 128
FrameHeader == 16      \* size 4, magic 2, count 2, duration 2, reserved 2, count 4

HeaderFields(b) ==
  [fs |-> B4(b, 0), fr |-> U16(b, 6), w |-> U16(b, 8), h |-> U16(b, 10),
   dk |-> Depth(U16(b, 12))[1], dv |-> Depth(U16(b, 12))[2], fl |-> B4(b, 14), sp |-> U16(b, 18),
   ti |-> b[29], cc |-> U16(b, 32), pw |-> b[35], ph |-> b[36], gx |-> I16(b, 36), gy |-> I16(b, 38),
   gw |-> U16(b, 40), gh |-> U16(b, 42)]
HeaderOk(b) ==
  /\ Len(b) >= HeaderSize
  /\ U16(b, 4) = 42464                        \* 0xA5E0
  /\ \A k \in 21..28 : b[k] = 0

\* [st, p, hdr, frames, deep]
CStart(b) ==
  IF HeaderOk(b) THEN [st |-> "frames", p |-> HeaderSize, hdr |-> HeaderFields(b), frames |-> <<>>, deep |-> FALSE]
  ELSE [st |-> "err", p |-> 0, hdr |-> <<>>, frames |-> <<>>, deep |-> FALSE]

\* The chunks of a frame: n of them from p, none beyond e.  What follows the
\* last of them inside the frame is ignored.
FrameChunks(b, p, e, n) ==
  IF n > (e - p) \div 6 THEN VFail(p)
  ELSE FoldLeft(LAMBDA a, i : IF ~a.ok THEN a
                  ELSE LET r == Chunk(b, a.p, e)
                       IN IF r.ok THEN [ok |-> TRUE, p |-> r.p, v |-> Append(a.v, r.v), m |-> MaxOf(a.m, r.m)]
                          ELSE VFail(p),
                [ok |-> TRUE, p |-> p, v |-> <<>>, m |-> 0], [i \in 1..n |-> i])

CFrame(b, s) ==
  LET p == s.p
      left == Len(b) - p
      bad == [s EXCEPT !.st = "err"]
  IN IF left < FrameHeader THEN bad
     ELSE LET size == U32(b, p)
          IN IF size < FrameHeader \/ size > left \/ U16(b, p + 4) # 61946    \* 0xF1FA
             THEN bad
             ELSE LET n == IF U32(b, p + 12) # 0 THEN U32(b, p + 12) ELSE U16(b, p + 6)
                      r == FrameChunks(b, p + FrameHeader, p + size, n)
                  IN IF ~r.ok THEN bad
                     ELSE [s EXCEPT !.p = p + size, !.deep = @ \/ r.m > NestLimit,
                             !.frames = Append(@, [dur |-> U16(b, p + 8), chunks |-> r.v])]
\* one step; at least one frame is required
CStep(b, s) == IF s.p = Len(b) /\ s.frames # <<>> THEN [s EXCEPT !.st = "ok"] ELSE CFrame(b, s)
CDone(s) == s.st \in {"ok", "err"}
\* the run of the machine, for specifications that need its result at once
CRun(b) == FoldLeft(LAMBDA s, i : IF CDone(s) THEN s ELSE CStep(b, s), CStart(b),
                    [i \in 1..(Len(b) \div FrameHeader + 1) |-> i])
RawFile(s) == [hdr |-> s.hdr, frames |-> s.frames]
=============================================================================
