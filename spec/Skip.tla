-------------------------------- MODULE Skip --------------------------------
(***************************************************************************)
(* Perturbations of a file that must not influence what is loaded from it. *)
(* types is, per frame, the sequence of its chunk types; an operation is   *)
(*   [op |-> "insert" | "grow" | "trail" | "reserved" | "header", f, at, ty]; *)
(* an insertion may have a field n: that many copies.                      *)
(***************************************************************************)
EXTENDS Chunks

UserDataType == 8224
CelType == 8197
\* content the document does not depend on
UnusedTypes == {8198, 8199, 8200, 8214, 8215, 8227}
Skipped(ty) == ty \in UnusedTypes \/ ty \notin KnownTypes

Copies(o) == IF "n" \in DOMAIN o THEN o.n ELSE 1
TypeAt(s, k, x, n) == SubSeq(s, 1, k) \o [i \in 1..n |-> x] \o SubSeq(s, k + 1, Len(s))
\* Is the operation one that may not have an influence?
Harmless(types, o) ==
  LET t == types[o.f + 1]
  IN CASE o.op = "insert"   -> /\ Skipped(o.ty) /\ o.at <= Len(t)
                               \* it would separate user data from its owner
                               /\ o.at = Len(t) \/ t[o.at + 1] # UserDataType
       [] o.op = "grow"     -> o.at < Len(t) /\ o.ty # CelType   \* 1 stands for a linked cel, 2 for a compressed one
       [] o.op = "reserved" -> o.at < Len(t)
       [] o.op = "trail"    -> TRUE
       [] o.op = "header"   -> TRUE
       [] OTHER -> FALSE
Perturb(types, o) == IF o.op = "insert" THEN [types EXCEPT ![o.f + 1] = TypeAt(@, o.at, o.ty, Copies(o))] ELSE types
AllHarmless(types, ops) ==
  FoldLeft(LAMBDA a, o : IF a.ok /\ Harmless(a.t, o) THEN [ok |-> TRUE, t |-> Perturb(a.t, o)]
                         ELSE [a EXCEPT !.ok = FALSE], [ok |-> TRUE, t |-> types], ops).ok
=============================================================================
