----------------------------- MODULE ScanTrace ------------------------------
(***************************************************************************)
(* Searches of the index.  An event is an index of n descriptors with the  *)
(* wanted one at positions m (at least the first of them are listed), and  *)
(* what each variant of the search answered, over all placements of this   *)
(* index in memory, wanted descriptors, surroundings and modes of the FPU: *)
(* position, -1 nothing found, -2 a place outside of the index, -3 a fault *)
(* of access to memory.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

\* the plain search, step by step
RECURSIVE Search(_, _, _)
Search(is, n, at) == IF at >= n THEN -1 ELSE IF at \in is THEN at ELSE Search(is, n, at + 1)
\* and what it means
Least(is) == IF is = {} THEN -1 ELSE CHOOSE x \in is : \A y \in is : x <= y

Range(s) == {s[k] : k \in DOMAIN s}
C20(e) ==
  LET want == Least(Range(e.m)) IN
  \A k \in DOMAIN e.r : Range(e.r[k].g) = {want}

Judge(e) == {p \in Props : ~C20(e)}

Init == i = 0 /\ bad = {}
Step == /\ i < Len(Trace)
        /\ bad' = Judge(Trace[i + 1])
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
\* the search answers the least matching position (theorem, evaluated)
ASSUME \A n \in 0..6 : \A is \in SUBSET (0..(n - 1)) : Search(is, n, 0) = Least(is)
=============================================================================
