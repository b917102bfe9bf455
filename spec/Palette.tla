------------------------------ MODULE Palette ------------------------------
(***************************************************************************)
(* Resolution of the palette of an indexed file.  The three kinds of       *)
(* palette chunks build three candidates at the same time, one step per    *)
(* chunk; at the end the newest kind that occurred is chosen.              *)
(***************************************************************************)
EXTENDS Bytes

None256 == [i \in 1..256 |-> <<0, 0, 0, 0>>]
Kinds3 == <<"Palette", "Palette0004", "Palette0011">>     \* in order of precedence
\* any: a chunk of the kind occurred; set: a color was set; bad: out of range
Cand0 == [any |-> FALSE, set |-> FALSE, bad |-> FALSE, col |-> None256]
PalStart == << Cand0, Cand0, Cand0 >>

\* 6 bit components scaled to 8 bits.  Values beyond 63 do not occur in valid
\* files; -1 stands for "unspecified".
Scale6(v) == IF v > 63 THEN -1 ELSE 4 * v + v \div 16
OldColor(t, c) == IF t = "Palette0011" THEN <<Scale6(c[1]), Scale6(c[2]), Scale6(c[3]), 255>>
                  ELSE <<c[1], c[2], c[3], 255>>

NewChunk(s, c) ==
  [any |-> TRUE, set |-> TRUE, bad |-> s.bad,
   col |-> [i \in 1..256 |-> IF i - 1 >= c.first /\ i - 1 <= c.last THEN c.entries[i - c.first].c ELSE s.col[i]]]
\* skips accumulate over the packets of one chunk
OldPacket(t, a, p) ==
  LET first == a.at + p.skip
      n == Len(p.colors)
  IN IF a.s.bad \/ first + n > 256 THEN [a EXCEPT !.s.bad = TRUE]
     ELSE [at |-> first + n,
           s |-> [a.s EXCEPT !.set = @ \/ n > 0,
                   !.col = [i \in 1..256 |-> IF i > first /\ i <= first + n THEN OldColor(t, p.colors[i - first])
                                             ELSE a.s.col[i]]]]
OldChunk(s, c) ==
  FoldLeft(LAMBDA a, p : OldPacket(c.t, a, p), [at |-> 0, s |-> [s EXCEPT !.any = TRUE]], c.packets).s

\* one step per chunk
PalStep(s, c) ==
  CASE c.t = "Palette" -> [s EXCEPT ![1] = NewChunk(@, c)]
    [] c.t = "Palette0004" -> [s EXCEPT ![2] = OldChunk(@, c)]
    [] c.t = "Palette0011" -> [s EXCEPT ![3] = OldChunk(@, c)]
    [] OTHER -> s

\* [ok, col]
PalResult(s, ti) ==
  LET k == CHOOSE k \in 1..4 : /\ k = 4 \/ s[k].any
                               /\ \A j \in 1..(k - 1) : ~s[j].any
  IN IF k = 4 THEN [ok |-> FALSE, col |-> <<>>]
     ELSE IF s[k].bad \/ ~s[k].set THEN [ok |-> FALSE, col |-> <<>>]
     ELSE [ok |-> TRUE, col |-> [s[k].col EXCEPT ![ti + 1] = <<@[1], @[2], @[3], 0>>]]

\* observed colors against the result
ColorIs(o, c) == \A k \in 1..4 : c[k] = -1 \/ o[k] = c[k]
ColorsAre(obs, col) == Len(obs) = Len(col) /\ \A i \in 1..Len(col) : ColorIs(obs[i], col[i])
=============================================================================
