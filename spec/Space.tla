-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* When a tuple may not refuse an operation for lack of space.             *)
(*                                                                         *)
(* h, t  unallocated descriptors and payload units                         *)
(* hl    sizes of the released places (holes); a hole of size 0 is a       *)
(*       descriptor without payload                                        *)
(* These rules are used to judge the traces of the real code (TupleTrace)  *)
(* and are themselves checked against the reference allocator (Layout).    *)
(***************************************************************************)
EXTENDS Integers, Sequences

PureHole(hl) == \E n \in 1..Len(hl) : hl[n] = 0
HoleEq(hl, u) == \E n \in 1..Len(hl) : hl[n] = u
HoleGe(hl, u) == \E n \in 1..Len(hl) : hl[n] >= u

\* a descriptor is available
Slot(h, hl) == h > 0 \/ PureHole(hl)

\* a new loose field (or item) with u units of payload
FitsNew(h, t, hl, u) ==
  IF u = 0 THEN Slot(h, hl)
  ELSE HoleEq(hl, u) \/ (Slot(h, hl) /\ (HoleGe(hl, u) \/ t >= u))

\* the first value of a preplaced field of variable size
FitsData(h, t, hl, u) == HoleGe(hl, u) \/ t >= u

\* replacing a value of `have' units by one of u units
FitsResize(h, t, hl, have, u) ==
  \/ have = u
  \/ Slot(h, hl) /\ (u < have \/ t >= u \/ HoleGe(hl, u))

\* dropping the value of a preplaced field of variable size
FitsRelease(h, t, hl) == Slot(h, hl)
=============================================================================
