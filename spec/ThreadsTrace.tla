---------------------------- MODULE ThreadsTrace ----------------------------
(***************************************************************************)
(* Recorded interleavings of threads which share managed tuples.  Events:  *)
(*   run   one schedule: ev is the sequence of [kind, thread, buffer,      *)
(*         value], judged buffer by buffer by Sharing                      *)
(*   sum   real threads: per buffer, how many references were acquired and *)
(*         given up, how many times it was released and how many reads     *)
(*         gave other contents                                             *)
(*   err   the code of the last error of a thread and the expected one     *)
(***************************************************************************)
EXTENDS Sharing, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

Buffers(ev) == {ev[k][3] : k \in 1..Len(ev)}
RECURSIVE Walk(_, _, _)
\* all steps are legal, and everything is over in the end
Walk(ev, k, m) ==
  IF k > Len(ev) THEN \A b \in DOMAIN m : Over(m[b])
  ELSE LET e == ev[k] IN
       /\ Ok(m[e[3]], e[1], e[4])
       /\ Walk(ev, k + 1, [m EXCEPT ![e[3]] = After(@, e[1], e[4])])

C16(e) ==
  CASE e.e = "run" -> Walk(e.ev, 1, [b \in Buffers(e.ev) |-> Fresh])
    [] e.e = "sum" -> e.acq = e.rel /\ e.freed = 1 /\ e.wrong = 0
    [] e.e = "err" -> e.got = e.want

Judge(e) == {p \in Props : ~C16(e)}
Init == i = 0 /\ bad = {}
Step == /\ i < Len(Trace)
        /\ bad' = Judge(Trace[i + 1])
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
