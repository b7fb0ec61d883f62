----------------------------- MODULE LegacyTrace -----------------------------
(***************************************************************************)
(* Recorded histories of calls of the C interface against the data model:  *)
(* a tuple is a bag of entries <<column, genus, value>>; which of several  *)
(* entries of the same column and type an update takes is not defined.     *)
(*   e  call: new ups ins upd era erm erf shr clr fet mis end, or cb       *)
(*   r, le  returned and last error codes                                  *)
(*   ix  the index after it, in order: <<column, genus, bytes, value by    *)
(*       the typed accessor>>, or <<-1, 31, 0>> for a released place       *)
(*   h, t, j, hl  free descriptors, free and released units, released      *)
(*       places;  q lookups, rd reads, cmp comparisons                     *)
(***************************************************************************)
EXTENDS Values, Space, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ix, sp, bad
vars == <<i, ix, sp, bad>>

MaxColumn == 2047

Live(x) == SelectSeq(x, LAMBDA n : n[2] # HOLE)
Entry(n) == <<n[1], n[2], n[3]>>
Bag(x) == LET l == Live(x) IN [k \in 1..Len(l) |-> Entry(l[k])]

Count(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \/ a = b
                    \/ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
Without(s, n) == [k \in 1..(Len(s) - 1) |-> IF k < n THEN s[k] ELSE s[k + 1]]
Of(s, c, g) == {k \in 1..Len(s) : s[k][1] = c /\ s[k][2] = g}
Range(s) == {s[k] : k \in 1..Len(s)}

ValidColumn(e) == e.c <= MaxColumn

----------------------------------------------------------------------------
(* C18 *)

\* old and new: bags of entries before and after the call
Effect(e, old, new) ==
  LET mine == Of(old, e.c, e.g)  entry == <<e.c, e.g, e.v>> IN
  CASE e.e = "ins" \/ (e.e = "ups" /\ mine = {}) -> SameBag(Append(old, entry), new)
    [] e.e \in {"ups", "upd"} -> \E k \in mine : SameBag([old EXCEPT ![k] = entry], new)
    [] OTHER -> SameBag(old, new)

Must(e, old) ==
  LET u == Units(e.g, e.v)  mine == Of(old, e.c, e.g) IN
  IF e.e = "ins" \/ (e.e = "ups" /\ mine = {}) THEN FitsNew(sp.h, sp.t, sp.hl, u)
  ELSE \A k \in mine : FitsResize(sp.h, sp.t, sp.hl, Units(e.g, old[k][3]), u)

PutOK(e, old, new) ==
  IF ~ValidColumn(e) THEN e.r = "inval" /\ SameBag(old, new)
  ELSE IF e.e = "upd" /\ Of(old, e.c, e.g) = {} THEN e.r = "nofield" /\ SameBag(old, new)
  ELSE \/ e.r = "ok" /\ Effect(e, old, new)
       \/ e.r = "space" /\ ~Must(e, old) /\ SameBag(old, new)

Zeros(v) == {k \in 1..Len(v) : v[k] = 0}
CString(v) == IF Long(v) \/ Zeros(v) = {} THEN v
              ELSE SubSeq(v, 1, (CHOOSE k \in Zeros(v) : \A m \in Zeros(v) : k <= m) - 1)
Shown(g, v) == IF g = TEXT THEN CString(v) ELSE v

ReadOK(x, new) ==
  LET c == x[1]  g == x[2]  mine == Of(new, c, g) IN
  IF c > MaxColumn THEN x[3] \in {"none", IF g = TEXT THEN "nofield" ELSE "inval"}
  ELSE IF mine # {} THEN x[3] \in {"none", "ok"} /\ \E k \in mine : x[4] = Shown(g, new[k][3])
  ELSE x[3] \in {"none", IF g = TEXT THEN "nofield" ELSE "ok"} /\ x[4] = Substitute(g)

AccessOK(e) == \A k \in 1..Len(e.ix) :
  IF e.ix[k][2] = HOLE THEN e.ix[k][3] = 0
  ELSE e.ix[k][4] = Shown(e.ix[k][2], e.ix[k][3])

C18(e) ==
  IF e.e = "end" THEN e.fr = 1
  ELSE LET old == Bag(ix)  new == Bag(e.ix) IN
  /\ CASE e.e = "new" -> e.r = "ok" /\ new = <<>>
       [] e.e \in {"ups", "ins", "upd"} -> PutOK(e, old, new)
       [] e.e = "mis" -> e.r \in {"inval", "nofield"} /\ SameBag(old, new)
       [] e.e = "shr" -> SameBag(old, new) /\ e.j = 0 /\ e.hl = <<>> /\ (e.had = 1 => e.n = 1)
       [] e.e = "fet" -> e.r = "ok" /\ SameBag(old, new)
       [] e.e = "clr" -> e.r = "ok" /\ new = <<>>
       [] OTHER -> TRUE
  \* (erasing reports a wrong column by its result only)
  /\ e.e \in {"era", "erm"} \/ e.le = e.r
  /\ AccessOK(e)
  /\ \A k \in 1..Len(e.rd) : ReadOK(e.rd[k], new)
  /\ e.ck = 1
  /\ (e.em = 1) = (new = <<>>)
  /\ e.emr = e.em

----------------------------------------------------------------------------
(* C19 *)

Matching(x, lo, hi, genera) ==
  {k \in 1..Len(x) : x[k][2] \in genera /\ x[k][2] # HOLE /\ x[k][1] >= lo /\ x[k][1] <= hi}
\* positions are counted from zero
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Exactly(s, set) == Ascending(s) /\ Range(s) = {k - 1 : k \in set}
First(s) == IF s = <<>> THEN -1 ELSE s[1]
QueryOK(x, q) ==
  LET m == Matching(x, q[2], q[3], Range(q[4])) IN
  /\ Exactly(q[7], m) /\ Exactly(q[8], m)
  /\ q[5] = First(q[7]) /\ q[6] = First(q[8])
  /\ q[9] = Cardinality(m) /\ q[10] = Cardinality(m)

EraseOK(e, old, new) ==
  CASE e.e \in {"era", "erm"} /\ ~ValidColumn(e) -> e.r = "inval" /\ SameBag(old, new)
    [] e.e = "era" -> LET m == Of(old, e.c, e.g) IN
         IF m = {} THEN e.n = 0 /\ SameBag(old, new)
         ELSE e.n = 1 /\ \E k \in m : SameBag(Without(old, k), new)
    [] e.e = "erm" -> LET m == Matching(old, e.c, e.c, Range(e.m)) IN
         /\ e.n = Cardinality(m)
         /\ LET rest == SelectSeq(old, LAMBDA n : ~(n[1] = e.c /\ n[2] \in Range(e.m)))
            IN SameBag(rest, new)
    [] e.e = "erf" -> IF e.n = -1 \/ ix[e.n + 1][2] = HOLE THEN SameBag(old, new)
                      ELSE SameBag(Bag(SubSeq(ix, 1, e.n) \o SubSeq(ix, e.n + 2, Len(ix))), new)
    [] OTHER -> TRUE

C19(e) ==
  e.e = "end" \/
  /\ EraseOK(e, Bag(ix), Bag(e.ix))
  /\ \A k \in 1..Len(e.q) : QueryOK(e.ix, e.q[k])
  \* released places are recognizable
  /\ \A k \in 1..Len(e.ix) : e.ix[k][2] = HOLE => e.ix[k][1] = -1

----------------------------------------------------------------------------
(* C25 *)

IC == 1  EQ == 2  LT == 4  GT == 8
\* order of byte strings
Order(a, b) ==
  LET d == {k \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[k] # b[k]} IN
  IF d = {} THEN IF Len(a) = Len(b) THEN EQ ELSE IF Len(a) < Len(b) THEN LT ELSE GT
  ELSE LET k == CHOOSE k \in d : \A m \in d : k <= m IN IF a[k] < b[k] THEN LT ELSE GT

CompareOK(x, new) ==
  LET mine == Of(new, x[1], x[2]) IN
  IF mine = {} THEN x[4] = (IF x[2] = VARBIN /\ x[3] = <<>> THEN EQ ELSE IC)
  ELSE \E k \in mine : Long(new[k][3]) \/ x[4] = Order(new[k][3], x[3])

C25(e) ==
  CASE e.e = "end" -> TRUE
    [] e.e = "cb" -> \A a, b \in 1..3 : e.m[3 * (a - 1) + b] = Order(e.s[a], e.s[b])
    [] OTHER -> \A k \in 1..Len(e["cmp"]) : CompareOK(e["cmp"][k], Bag(e.ix))

----------------------------------------------------------------------------
(* C27: what was declared is available *)

C27(e) == e.e \in {"new", "fet"} => e.r = "ok" /\ e.h >= e.items /\ 4 * e.t >= e.bytes

Judge(e) == {p \in Props : ~(CASE p = "C18" -> C18(e) [] p = "C19" -> C19(e)
                               [] p = "C25" -> C25(e) [] p = "C27" -> C27(e))}

Init == i = 0 /\ ix = <<>> /\ sp = [h |-> 0, t |-> 0, hl |-> <<>>] /\ bad = {}
Step ==
  /\ i < Len(Trace)
  /\ LET e == Trace[i + 1] IN
     /\ bad' = Judge(e)
     /\ ix' = IF e.e \in {"end", "cb"} THEN <<>> ELSE e.ix
     /\ sp' = IF e.e \in {"end", "cb"} THEN sp ELSE [h |-> e.h, t |-> e.t, hl |-> e.hl]
  /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
