---------------------------- MODULE HandlesTrace ----------------------------
(***************************************************************************)
(* Recorded histories of handles of managed tuples.  Events:               *)
(*   begin  nothing is held                                                *)
(*   do     an operation o (of Handles), its outcome r, the number of      *)
(*          buffers allocated meanwhile al, and then what is seen:         *)
(*          ro, rw  contents of handles                                    *)
(*          rb, wb  their buffers (0 - none), rn, wn  counters of          *)
(*          references of these buffers, live  buffers not yet released,   *)
(*          twice  how many times something released was released again    *)
(*          ox  if not 0: a shared handle, copied by schemas other than    *)
(*          its own one, read-only and writable ones: oa = <<twin, alien,  *)
(*          twin, alien>>, r - outcomes, s - whether a schema of a copy is *)
(*          the requested one, c - contents                                *)
(*   end    everything was dropped                                         *)
(***************************************************************************)
EXTENDS Handles, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, bad
vars == <<i, st, bad>>

Empty3 == <<<<>>, <<>>, <<>>>>
Start == [ro |-> Empty3, rw |-> Empty3]
Held(e) == {e.rb[k] : k \in 1..3} \cup {e.wb[k] : k \in 1..3}
Users(e, b) == Cardinality({k \in 1..3 : e.rb[k] = b}) + Cardinality({k \in 1..3 : e.wb[k] = b})
SetOf(s) == {s[k] : k \in 1..Len(s)}

Memory(e) ==
  /\ e.twice = 0
  /\ SetOf(e.live) = Held(e) \ {0}
  /\ \A k \in 1..3 : /\ e.rb[k] # 0 => e.rn[k] = Users(e, e.rb[k])
                     /\ e.wb[k] # 0 => e.wn[k] = 1 /\ Users(e, e.wb[k]) = 1
                     /\ (e.ro[k] = <<>>) = (e.rb[k] = 0)
                     /\ (e.rw[k] = <<>>) = (e.wb[k] = 0)

Outcome(e) ==
  LET x == Apply(e.o, st) IN
  /\ \/ e.r = x.r /\ e.ro = x.st.ro /\ e.rw = x.st.rw
     \* no room in a tuple which doesn't grow
     \/ e.r \in {"space", "large", "overflow"} /\ e.o[1] \in {"fill", "put", "putw", "write"}
        /\ e.ro = st.ro /\ e.rw = st.rw
  /\ e.o[1] \in NoAllocation => e.al = 0

\* a schema has no effect on contents, if it suits, and prevents if not
Others(e) ==
  ("ox" \in DOMAIN e /\ e.ox # 0) =>
    /\ \A k \in {1, 3} : e.oa[k].r = "ok" /\ e.oa[k].s = 1 /\ e.oa[k].c = e.ro[e.ox]
    /\ \A k \in {2, 4} : e.oa[k].r # "ok"

C15(e) ==
  CASE e.e = "begin" -> TRUE
    [] e.e = "do" -> Outcome(e) /\ Memory(e) /\ Others(e)
    [] e.e = "end" -> e.live = <<>> /\ e.twice = 0

Judge(e) == {p \in Props : ~C15(e)}
Init == i = 0 /\ bad = {} /\ st = Start
Step == LET e == Trace[i + 1] IN
        /\ i < Len(Trace)
        /\ bad' = Judge(e)
        /\ st' = CASE e.e = "begin" -> Start [] e.e = "do" -> [ro |-> e.ro, rw |-> e.rw] [] OTHER -> st
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
