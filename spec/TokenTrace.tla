----------------------------- MODULE TokenTrace -----------------------------
(***************************************************************************)
(* Recorded tokens against the model of them.  Events:                     *)
(*   make  a token made of attributes (directly, by FPTU_TOKEN, or by      *)
(*         enforcing of an option): the outcome and what it tells          *)
(*   pair  two tokens: sameness, equality, order, hashes                   *)
(*   cast  checked casts                                                   *)
(***************************************************************************)
EXTENDS Tokens, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

Tells(t, a) ==
  LET w == Attributes(t) IN
  /\ \A k \in DOMAIN w : a[k] = w[k]
  /\ IF t.k = 1
     THEN /\ a.off = t.x
          /\ \/ a.size = PlaceBytes(t.g)
             \/ "native" \in DOMAIN t /\ t.g \in Stretchy  \* the size is of the C++ member
     ELSE a.id = t.x

B(p) == IF p THEN 1 ELSE 0
Checked(ok) == IF ok THEN "ok" ELSE "type"
C24(e) ==
  CASE e.e = "make" -> IF Allowed(e) THEN e.r = "ok" /\ (e.g < HOLE => Tells(e, e.a))
                       ELSE e.r = "argument"
    [] e.e = "pair" ->
         LET same == Same(e.a, e.b)  before == Before(e.a, e.b)  after == Before(e.b, e.a) IN
         /\ e.same = B(same) /\ e.same2 = B(same) /\ e.ntag = B(same)
         /\ same => e.hash = 1
         /\ e.eq = B(Equal(e.a, e.b)) /\ e.ne = 1 - e.eq
         /\ e.lt = B(before) /\ e.gt = B(after)
         /\ e.le = B(~after) /\ e.ge = B(~before)
    [] e.e = "cast" ->
         /\ e.pre = Checked(e.k = 1) /\ e.loose = Checked(e.k = 0)
         /\ e["t_text"] = Checked(e.g = TEXT) /\ e["t_u16"] = Checked(e.g = 7)
         /\ e["t_u64"] = Checked(e.g = 13)

Judge(e) == {p \in Props : ~C24(e)}

Init == i = 0 /\ bad = {}
Step == /\ i < Len(Trace)
        /\ bad' = Judge(Trace[i + 1])
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
