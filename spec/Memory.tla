------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* What loading may allocate: a fixed allowance, one preallocation of      *)
(* bounded size per counted list that is being read (at most NestLimit of  *)
(* them nest), and multiples of what is present: the input, and the table  *)
(* of one slot per layer and frame.                                        *)
(***************************************************************************)
EXTENDS Naturals

KiB == 1024
Prealloc == 64 * KiB              \* cap of a preallocated list
Allowance == 256 * KiB
PerByte == 256
PerSlot == 256
MemLo(x, y) == IF x < y THEN x ELSE y
Bound(len, layers, frames, nest) ==
  Allowance + Prealloc * MemLo(nest, 70) + PerByte * len + PerSlot * layers * frames
=============================================================================
