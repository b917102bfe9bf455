------------------------------ MODULE MCProps -------------------------------
(***************************************************************************)
(* User data with properties: value trees are encoded and decoded again.   *)
(* A run builds the property maps step by step; a last step may spoil the  *)
(* result with one fault.                                                  *)
(***************************************************************************)
EXTENDS Chunks, Encode

CONSTANTS MAPS, PROPS, DEEP, FLAGS

VARIABLES maps, flags, fault, b, r
vars == <<maps, flags, fault, b, r>>

\* Abstract values: [ty, b: payload or element type, n: names, s: values]
V(ty, x) == [ty |-> ty, b |-> x, n |-> <<>>, s |-> <<>>]
Pattern(ty, n) == [i \in 1..n |-> (37 * i + 11 * ty) % 256]
Scalars == { V(ty, Pattern(ty, ScalarSize[ty])) : ty \in (2..12) \cup {14, 15, 16, 19} }
           \cup { V(1, <<0>>), V(1, <<1>>), V(1, <<255>>), V(13, <<>>), V(13, <<226, 130, 172>>) }
VecOf(et, vs) == [ty |-> 17, b |-> E16(et), n |-> <<>>, s |-> vs]
MapOf(ns, vs) == [ty |-> 18, b |-> <<>>, n |-> ns, s |-> vs]
Few == { V(1, <<1>>), V(5, <<1, 2>>), V(13, <<97>>), V(10, <<1, 2, 3, 4>>) }
Level1 ==
  { VecOf(v.ty, [i \in 1..n |-> v]) : v \in Scalars, n \in 0..2 }
  \cup { VecOf(0, <<v, w>>) : v \in Few, w \in Few } \cup { VecOf(0, <<>>), VecOf(17, <<>>), VecOf(18, <<>>) }
  \cup { MapOf(<< <<97>> >>, <<v>>) : v \in Few } \cup { MapOf(<<>>, <<>>) }
  \cup { MapOf(<< <<>>, <<98, 99>> >>, <<v, w>>) : v \in Few, w \in Few }
Some1 == { VecOf(3, <<V(3, <<7>>), V(3, <<8>>)>>), VecOf(0, <<V(1, <<1>>), V(13, <<97>>)>>), VecOf(0, <<>>) }
Maps1 == { MapOf(<< <<97>> >>, <<V(5, <<1, 2>>)>>), MapOf(<<>>, <<>>), MapOf(<< <<>> >>, <<VecOf(3, <<V(3, <<7>>)>>)>>) }
Level2 ==
  { VecOf(17, <<v, w>>) : v \in Some1, w \in Some1 } \cup { VecOf(18, <<v, w>>) : v \in Maps1, w \in Maps1 }
  \cup { VecOf(0, <<v, w>>) : v \in Some1, w \in Maps1 } \cup { MapOf(<< <<97>>, <<97>> >>, <<v, w>>) : v \in Maps1, w \in Some1 }
Values == Scalars \cup Level1 \cup Level2
Later == Few \cup Some1 \cup Maps1
\* nesting: v inside n more vectors, or n more maps
RECURSIVE InVectors(_, _), InMaps(_, _)
InVectors(v, n) == IF n = 0 THEN v ELSE InVectors(VecOf(0, <<v>>), n - 1)
InMaps(v, n) == IF n = 0 THEN v ELSE InMaps(MapOf(<< <<>> >>, <<v>>), n - 1)
Deeps == { InVectors(V(3, <<7>>), n) : n \in DEEP } \cup { InMaps(V(3, <<7>>), n) : n \in DEEP }

RECURSIVE Enc(_)
Enc(v) ==
  CASE v.ty = 13 -> EStr(v.b)
    [] v.ty = 17 -> E32(Len(v.s)) \o v.b
                    \o Cat([i \in 1..Len(v.s) |-> (IF v.b = <<0, 0>> THEN E16(v.s[i].ty) ELSE <<>>) \o Enc(v.s[i])])
    [] v.ty = 18 -> E32(Len(v.s)) \o Cat([i \in 1..Len(v.s) |-> EStr(v.n[i]) \o E16(v.s[i].ty) \o Enc(v.s[i])])
    [] OTHER -> v.b
\* a decoded tree with strings in the place of their ranges
Str(x) == IF x[2] = 0 THEN <<>> ELSE BN(b, x[1], x[2])
RECURSIVE Abstract(_)
Abstract(t) ==
  LET ty == CHOOSE i \in 1..19 : ScalarTypes[i] = t.t
  IN [ty |-> ty, b |-> IF ty = 13 THEN Str(t.b) ELSE IF ty = 18 THEN <<>> ELSE t.b,
      n |-> [i \in 1..Len(t.n) |-> Str(t.n[i])], s |-> [i \in 1..Len(t.s) |-> Abstract(t.s[i])]]
Norm(v) == IF v.ty = 1 THEN V(1, <<IF v.b = <<0>> THEN 0 ELSE 1>>) ELSE v
RECURSIVE Normal1(_)
Normal1(v) == [Norm(v) EXCEPT !.s = [i \in 1..Len(v.s) |-> Normal1(v.s[i])]]
RECURSIVE Depth1(_)
Depth1(v) == IF v.ty \notin {17, 18} THEN 0
             ELSE 1 + FoldLeft(LAMBDA a, x : MaxOf(a, Depth1(x)), 0, v.s)

\* maps: sequence of [key, props: sequence of <<name, value>>]
EncMap(m) == m.key \o E32(Len(m.props))
             \o Cat([i \in 1..Len(m.props) |-> EStr(m.props[i][1]) \o E16(m.props[i][2].ty) \o Enc(m.props[i][2])])
Text == <<195, 164>>
Build(ms, fl, ft) ==
  LET body == Cat([i \in 1..Len(ms) |-> EncMap(ms[i])])
      n == 8 + Len(body)
      size == CASE ft[1] = "size" -> IF ft[2] >= 0 THEN ft[2] ELSE n + ft[2] [] ft[1] = "over" -> n + 1 [] OTHER -> n
      num == IF ft[1] = "num" THEN Len(ms) + ft[2] ELSE Len(ms)
      body1 == IF ft[1] = "type" THEN [body EXCEPT ![ft[2]] = ft[3]] ELSE body
  IN EChunk(8224, E32(fl) \o (IF fl % 2 = 1 THEN EStr(Text) ELSE <<>>)
                  \o (IF (fl \div 2) % 2 = 1 THEN <<1, 2, 3, 4>> ELSE <<>>)
                  \o (IF fl \div 4 = 1 THEN E32(size) \o E32(num) \o body1 ELSE <<>>)
                  \o (IF ft[1] = "trail" THEN <<9, 9>> ELSE <<>>))

Init == maps = <<>> /\ flags \in FLAGS /\ fault = <<"none">> /\ b = <<>> /\ r = <<>>
Live == fault = <<"none">> /\ (flags \div 4 = 1 \/ maps = <<>>)
Set == /\ b' = Build(maps', flags, fault')
       /\ r' = Chunk(b', 0, Len(b'))
       /\ flags' = flags
AddMap == /\ Live /\ Len(maps) < MAPS
          /\ maps' = Append(maps, [key |-> <<Len(maps), 0, 0, 7 * Len(maps)>>, props |-> <<>>])
          /\ fault' = fault
          /\ Set
Count == FoldLeft(LAMBDA a, m : a + Len(m.props), 0, maps)
Addable == IF Count = 0 THEN Values \cup Deeps ELSE Later
AddProp == /\ Live /\ maps # <<>> /\ Count < PROPS
           /\ \E v \in Addable :
                maps' = [maps EXCEPT ![Len(maps)].props = Append(@, << IF Count = 0 THEN <<112>> ELSE <<>>, v >>)]
           /\ fault' = fault
           /\ Set
\* the first property of the first map: position of its type
TypePos == 4 + 4 + 2 + Len(maps[1].props[1][1]) + 1
Faults == { <<"size", 0>>, <<"size", 7>>, <<"size", 8>>, <<"size", -1>>, <<"over">>, <<"num", 1>>, <<"trail">> }
          \cup (IF Len(maps) > 0 THEN { <<"num", -1>> } ELSE {})
          \cup (IF Len(maps) > 0 /\ maps[1].props # <<>> THEN { <<"type", TypePos, x>> : x \in {0, 20, 255} } ELSE {})
Spoil == /\ Live /\ flags \div 4 = 1 /\ Count <= 1
         /\ \E x \in Faults : fault' = x
         /\ maps' = maps
         /\ Set
Next == AddMap \/ AddProp \/ Spoil
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Built == b # <<>>
Deep == \E i \in DOMAIN maps : \E j \in DOMAIN maps[i].props : Depth1(maps[i].props[j][2]) > 64
Sound == fault[1] \in {"none", "trail"}
MapOk(t, m) ==
  /\ t.b = m.key /\ Len(t.s) = Len(m.props)
  /\ \A i \in 1..Len(t.s) : Str(t.n[i]) = m.props[i][1] /\ Abstract(t.s[i]) = Normal1(m.props[i][2])
Faithful == Built /\ Sound =>
  /\ r.ok
  /\ r.v.text = (IF flags % 2 = 1 THEN << <<12, 2>> >> ELSE <<>>)
  /\ r.v.color = (IF (flags \div 2) % 2 = 1 THEN << <<1, 2, 3, 4>> >> ELSE <<>>)
  /\ IF flags \div 4 = 0 THEN r.v.props = <<>>
     ELSE /\ r.v.props[1].ok = 1 /\ Len(r.v.props[1].maps) = Len(maps)
          /\ \A i \in 1..Len(maps) : MapOk(r.v.props[1].maps[i], maps[i])
DepthRight == Built /\ r.ok /\ fault # <<"num", -1>> => (r.m > NestLimit) = (Deep /\ Sound)
\* faults
BadSize == Built /\ fault[1] = "size" /\ fault[2] \in {0, 7} => ~r.ok
TooLong == Built /\ fault[1] = "over" => ~r.ok
BadType == Built /\ fault[1] = "type" => r.ok /\ r.v.props = << [ok |-> 0, maps |-> <<>>] >>
BeyondSize == Built /\ fault[1] \in {"num", "size"} /\ r.ok =>
  \/ fault = <<"num", -1>> /\ r.v.props[1].ok = 1 /\ Len(r.v.props[1].maps) = Len(maps) - 1
  \/ maps = <<>> /\ fault = <<"size", 8>>
  \/ r.v.props = << [ok |-> 0, maps |-> <<>>] >>
EmptySize == Built /\ maps = <<>> /\ fault = <<"size", 8>> => r.ok /\ r.v.props[1].ok = 1
Emit == Built /\ r.m <= NestLimit => Show([op |-> "chunk", in |-> b, exp |-> Result(r.ok, [used |-> Len(b), c |-> r.v])])
=============================================================================
