----------------------------- MODULE MCFraming ------------------------------
(***************************************************************************)
(* Files of at most FRAMES frames with every combination of chunk counts,  *)
(* declared counts, trailing bytes and one fault each, cut at the end or   *)
(* extended: the steps of the container machine against a declarative      *)
(* account of which files are accepted and what is reported of them.       *)
(***************************************************************************)
EXTENDS Container, Encode, FiniteSets

CONSTANTS FRAMES, COUNTS, DELTAS, TRAILS, FAULTS, CUTS, HDRS, MIXED

VARIABLES fs, cut, hdr, b, s, log
vars == <<fs, cut, hdr, b, s, log>>

\* enc: how the number of chunks is declared; d: declared minus present;
\* tr: bytes after the last chunk; fault: what is wrong with the frame
Desc == [n : COUNTS, enc : {"old", "new", "both"}, d : DELTAS, tr : TRAILS, fault : FAULTS]
Plain == [n |-> 1, enc |-> "old", d |-> 0, tr |-> 0, fault |-> "none"]

DeltasQ == -1..1
CutsQ == {-17, -1, 0, 1, 6, 16, 22}
\* frames for the longer files
MixedQ == { Plain, [Plain EXCEPT !.n = 0, !.enc = "new"], [Plain EXCEPT !.enc = "both", !.n = 2, !.d = -1, !.tr = 7],
            [Plain EXCEPT !.fault = "long"], [Plain EXCEPT !.fault = "short"], [Plain EXCEPT !.d = 1] }

Declared(x) == IF x.n + x.d < 0 THEN 0 ELSE x.n + x.d
Chunks2(x, k) == Cat([i \in 1..x.n |-> IF i % 2 = 1 THEN EChunk(8215, <<>>) ELSE EChunk(30000 + i + 10 * k, <<7>>)])
Body(x, k) == Chunks2(x, k) \o [i \in 1..x.tr |-> 255]
FrameBytes(x, k) ==
  EFrameX(100 + k,
          CASE x.enc = "old" -> Declared(x) [] x.enc = "new" -> 0 [] x.enc = "both" -> 65535,
          IF x.enc = "old" THEN 0 ELSE Declared(x),
          Body(x, k),
          CASE x.fault = "long" -> 1 [] x.fault = "short" -> -1
            [] x.fault = "tiny" -> -(1 + Len(Body(x, k))) [] x.fault = "zero" -> -(16 + Len(Body(x, k)))
            [] x.fault = "huge" -> 1000000000 [] OTHER -> 0,
          IF x.fault = "magic" THEN 61947 ELSE 61946)
Header ==
  LET h == EHeader(3, 4, 32, 5)
  IN CASE hdr = "ok" -> h
       [] hdr = "magic" -> [h EXCEPT ![5] = 225]
       [] hdr = "reserved" -> [h EXCEPT ![24] = 1]
       [] hdr = "depth" -> [h EXCEPT ![13] = 24]
       [] hdr = "short" -> SubSeq(h, 1, 127)
Whole(f) == Header \o Cat([k \in 1..Len(f) |-> FrameBytes(f[k], k)])
\* cut: bytes missing at the end (negative: bytes added)
Final(w) == IF cut >= 0 THEN SubSeq(w, 1, Len(w) - cut) ELSE w \o [i \in 1..-cut |-> 0]

Lists == UNION { [1..n -> MIXED] : n \in 2..FRAMES } \cup { <<x>> : x \in Desc } \cup { <<>> }
         \cup { <<Plain, x>> : x \in Desc } \cup { <<x, Plain>> : x \in Desc }
Init ==
  /\ fs \in Lists
  /\ hdr \in HDRS
  /\ cut \in {c \in CUTS : c <= Len(Whole(fs))}
  /\ cut = 0 \/ \A k \in 1..Len(fs) : fs[k].fault = "none"
  /\ hdr = "ok" \/ (fs = <<Plain>> /\ cut = 0)
  /\ b = Final(Whole(fs))
  /\ s = CStart(b)
  /\ log = <<s.p>>
Next ==
  /\ ~CDone(s)
  /\ s' = CStep(b, s)
  /\ log' = Append(log, s'.p)
  /\ UNCHANGED <<fs, cut, hdr, b>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* "both" with a declared count of zero falls back to the short count
FrameGood(x) ==
  /\ x.fault = "none"
  /\ IF x.enc = "both" /\ Declared(x) = 0 THEN FALSE
     ELSE IF x.enc = "new" /\ Declared(x) = 0 THEN TRUE
     ELSE Declared(x) <= x.n
Good == /\ hdr \in {"ok", "depth"} /\ cut = 0 /\ fs # <<>>
        /\ \A k \in 1..Len(fs) : FrameGood(fs[k])
\* the cut may remove whole frames
CutGood == \E n \in 1..Len(fs) : /\ Len(Whole(SubSeq(fs, 1, n))) = Len(b) /\ cut > 0 /\ hdr = "ok"
                                 /\ \A k \in 1..n : FrameGood(fs[k])
Types(x, k) == [i \in 1..(IF Declared(x) < x.n THEN Declared(x) ELSE x.n) |->
                  IF i % 2 = 1 THEN <<"Path", 0>> ELSE <<"Unsupported", 30000 + i + 10 * k>>]
TypeOfChunk(c) == IF c.t = "Unsupported" THEN <<c.t, c.code>> ELSE <<c.t, 0>>

\* the position grows with every frame and never passes the end
Progress == /\ \A k \in 2..Len(log) : log[k] > log[k - 1] \/ (k = Len(log) /\ CDone(s) /\ log[k] = log[k - 1])
            /\ s.p <= Len(b)
Accepted == CDone(s) => (s.st = "ok") = (Good \/ CutGood)
Reported == s.st = "ok" =>
  /\ \A k \in 1..Len(s.frames) : /\ s.frames[k].dur = 100 + k
                                 /\ Map(TypeOfChunk, s.frames[k].chunks) = Types(fs[k], k)
  /\ Good => Len(s.frames) = Len(fs)
  /\ s.hdr.w = 3 /\ s.hdr.h = 4 /\ s.hdr.ti = 5 /\ s.hdr.gx = -3 /\ s.hdr.gy = 4 /\ s.hdr.gw = 16 /\ s.hdr.gh = 17
  /\ s.hdr.dv = IF hdr = "depth" THEN 24 ELSE 32
Terminates == <>CDone(s)
Emit == CDone(s) => Show([op |-> "raw", in |-> b, exp |-> Result(s.st = "ok", RawFile(s))])
=============================================================================
