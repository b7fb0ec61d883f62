---------------------------- MODULE NestedTrace -----------------------------
(***************************************************************************)
(* Recorded histories of tuples within tuples.  Each `do' event carries an *)
(* operation o on tuple a (with tuple b or a number x), its outcome r, all *)
(* different contents of a as seen in different ways, and of another one q *)
(* which must not change.                                                  *)
(***************************************************************************)
EXTENDS Nested, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, bad
vars == <<i, st, bad>>

Fresh3 == <<Start, Start, Start>>
NoRoom == {"space", "large", "overflow"}

C21(e) ==
  \/ e.e = "begin"
  \/ /\ Len(e.seen) = 1 /\ Len(e.other) = 1          \* all ways agree
     /\ e.other[1] = st[e.q]
     /\ \/ e.r = "ok" /\ Result(st, e.o, e.a, e.b, e.x, e.seen[1])
        \* a tuple of a fixed size may have no room (which is not judged here),
        \* a growing one has
        \/ e.r \in NoRoom /\ (e.mg = 0 \/ e.o = "erap") /\ e.o \in {"fill", "puta", "putp", "insc", "erap", "junk", "setv"}
           /\ e.seen[1] = st[e.a]

Judge(e) == {p \in Props : ~C21(e)}
Init == i = 0 /\ bad = {} /\ st = Fresh3
Step == LET e == Trace[i + 1] IN
        /\ i < Len(Trace)
        /\ bad' = Judge(e)
        /\ st' = IF e.e = "begin" THEN Fresh3 ELSE [st EXCEPT ![e.a] = e.seen[1]]
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
