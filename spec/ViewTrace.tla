----------------------------- MODULE ViewTrace ------------------------------
(***************************************************************************)
(* String views.  A view is a sequence of bytes, or nil: <<-1>>.  The      *)
(* order takes the length first, then bytes; nil precedes the empty one.   *)
(*   one   a view made by one of ways (2: from a C string, so up to zero)  *)
(*   pair  comparisons of two views, of a view and a std::string           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

Nil == <<-1>>
LenOf(v) == IF v = Nil THEN -1 ELSE Len(v)
Less(a, b) ==
  \/ LenOf(a) < LenOf(b)
  \/ /\ LenOf(a) = LenOf(b)
     /\ \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
B(p) == IF p THEN 1 ELSE 0
Cmp(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1
Ops(c) == B(c = 0) + 2 * B(c # 0) + 4 * B(c < 0) + 8 * B(c > 0) + 16 * B(c <= 0) + 32 * B(c >= 0)

UpToZero(s) ==
  IF \E k \in 1..Len(s) : s[k] = 0
  THEN LET k == CHOOSE k \in 1..Len(s) : s[k] = 0 /\ \A j \in 1..(k - 1) : s[j] # 0 IN SubSeq(s, 1, k - 1)
  ELSE s

\* a nil std::string or std::string_view doesn't exist: 3, 4 and 6 make the
\* empty view of it
Made(e) == IF e.a = Nil THEN (IF e.how \in {3, 4, 6} THEN <<>> ELSE Nil)
           ELSE IF e.how = 2 THEN UpToZero(e.a) ELSE e.a

C26(e) ==
  IF e.e = "pair"
  THEN LET c == Cmp(e.a, e.b) o == Ops(c) IN
       /\ e.cmp = c
       /\ e.eq + 2 * e.ne + 4 * e.lt + 8 * e.gt + 16 * e.le + 32 * e.ge = o
       /\ c = 0 => e.hash = 1
       /\ "sops" \in DOMAIN e => e.scmp = c /\ e.sops = o /\ e.gops = o
       /\ "lops" \in DOMAIN e => e.lcmp = c /\ e.lops = o
  ELSE LET v == Made(e)
           s == IF v = Nil THEN <<>> ELSE v IN
       /\ e.idx = s /\ e.at = s /\ e.fwd = s /\ e.bwd = s /\ e.str = s /\ e.sv = s
       /\ e.len = Len(s) /\ e.size = Len(s)
       /\ e.empty = B(s = <<>>) /\ e.nil = B(v = Nil)
       /\ s # <<>> => e.front = s[1] /\ e.back = s[Len(s)]
       /\ e.oor = 1
       /\ "swapped" \in DOMAIN e => e.swapped = 1

Judge(e) == {p \in Props : ~C26(e)}

Init == i = 0 /\ bad = {}
Step == /\ i < Len(Trace)
        /\ bad' = Judge(Trace[i + 1])
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
\* the order is total and strict (evaluated on a small world)
Small == {Nil} \cup UNION {[1..n -> {0, 1, 2}] : n \in 0..2}
ASSUME \A a, b \in Small : /\ (a = b) \/ Less(a, b) \/ Less(b, a)
                           /\ ~(Less(a, b) /\ Less(b, a))
                           /\ \A c \in Small : Less(a, b) /\ Less(b, c) => Less(a, c)
=============================================================================
