------------------------------ MODULE CapTrace ------------------------------
(***************************************************************************)
(* Declared capacities.  Each event is one creation of a tuple for `items' *)
(* fields and `bytes' of data (of a copy: for so many more of them), and   *)
(* an attempt to fill what was declared:                                   *)
(*   e  alloc init fixed managed scale clone frombuf fetch                 *)
(*   r  outcome;  h, t  free descriptors and units right after             *)
(*   pre  units of preplaced fields;  n0, p0  index size and payload units *)
(*        of the source of a copy                                          *)
(*   n  size of the supplied buffer, sb  its estimate for the declaration, *)
(*   s0  the estimate for no data, enough: n is fptu_buffer_enough         *)
(*   e = tsize: est is the estimate of a size for a set of tokens with     *)
(*      values of up to `bytes' bytes, size  of the tuple with all of them *)
(*   f  fields put: <<genus, length, preplaced, times tried, times done>>  *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

MaxFields == 8191
MaxUnits == 65534        \* of index and payload together
BufferLimit == 2 * 4 * MaxUnits

Has(e, k) == k \in DOMAIN e
Of(e, k) == IF Has(e, k) THEN e[k] ELSE 0
Min(a, b) == IF a < b THEN a ELSE b

UnitsBy(g, n) ==
  CASE g = TEXT     -> CeilDiv4(n + IF n < 254 THEN 1 ELSE 3)
    [] g = VARBIN   -> CeilDiv4(n) + 1
    [] g = NESTED   -> CeilDiv4(n)
    [] g = PROPERTY -> CeilDiv4(n - 1 + 2)
    [] OTHER        -> LooseUnits(g)

TotalItems(e) == Of(e, "n0") + e.items
Payload(e) == IF Has(e, "n0") /\ Of(e, "p0") > 0 THEN e["p0"] ELSE Of(e, "pre")
\* what remains for data within the format
Room(e) == MaxUnits - Min(TotalItems(e), MaxFields) - Payload(e)
Copying(e) == e.e \in {"clone", "frombuf", "fetch"}

Excessive(e) ==
  \/ e.items > MaxFields
  \/ e.bytes > 4 * MaxUnits - (IF Copying(e) \/ Of(e, "pre") = 0 THEN 0 ELSE 4 * Of(e, "pre") - 3)
Fits(e) == TotalItems(e) <= MaxFields /\ CeilDiv4(e.bytes) <= Room(e)

Provided(e) ==
  /\ e.r = "ok"
  /\ e.h >= Min(e.items, MaxFields - Of(e, "n0"))
  /\ e.t >= Min(e.bytes \div 4, Room(e))

\* nothing that fits the declaration is refused
RECURSIVE Filled(_, _, _, _)
Filled(f, k, items, units) ==
  \/ k > Len(f)
  \/ LET x == f[k]
         i2 == IF x[3] = 1 THEN items ELSE items - x[4]
         u2 == units - (x[4] * UnitsBy(x[1], x[2])) IN
     /\ (i2 >= 0 /\ u2 >= 0) => x[5] = x[4]
     /\ Filled(f, k + 1, i2, u2)
FillOK(e) ==
  Filled(e.f, 1, Min(e.items, MaxFields - Of(e, "n0")), Min(e.bytes \div 4, Room(e)))

Good(e) == Provided(e) /\ FillOK(e)

RECURSIVE UnitsOf(_, _)
UnitsOf(f, k) ==
  IF k > Len(f) THEN 0
  ELSE UnitsOf(f, k + 1)
       + (IF f[k][3] = 1 THEN 0 ELSE 1)
       + (IF f[k][3] = 1 /\ f[k][1] \notin Stretchy THEN 0 ELSE UnitsBy(f[k][1], f[k][2]))
TupleBytes(e) == 4 * (1 + e.pre + UnitsOf(e.f, 1))
EstimateOK(e) ==
  /\ \A k \in DOMAIN e.f : e.f[k][5] = 1
  /\ e.size <= TupleBytes(e)   \* empty values may take nothing
  /\ e.est >= e.size

C27(e) ==
  /\ e.ck = 1
  /\ IF e.e = "tsize" THEN EstimateOK(e)
     ELSE IF e.e = "scale"
     THEN \* scales always work, preplaced fields are within them
          /\ e.r = "ok" /\ e.h >= e.items
          /\ e.t >= Min((e.bytes \div 4) - Of(e, "pre"), Room(e))
          /\ Filled(e.f, 1, e.items, Min((e.bytes \div 4) - Of(e, "pre"), Room(e)))
     ELSE IF e.e = "init"
     THEN IF e.items > MaxFields THEN e.r # "ok"
          ELSE IF e.n < e.s0 \/ e.n > BufferLimit THEN e.r # "ok"
          ELSE /\ e.r = "ok" /\ e.h >= e.items
               /\ (e.n >= e.sb /\ ~Excessive(e)) => Good(e)
               /\ e.enough = 1 => e.t >= MaxUnits - e.items
     ELSE IF Excessive(e) THEN e.r # "ok"
     ELSE IF e.e = "fetch" /\ e.n < e.sb
     THEN \* a smaller buffer: not judged beyond of an absence of damage
          TRUE
     ELSE /\ Fits(e) => Good(e)
          /\ e.r = "ok" => Good(e)

Judge(e) == {p \in Props : ~C27(e)}

Init == i = 0 /\ bad = {}
Step == /\ i < Len(Trace)
        /\ bad' = Judge(Trace[i + 1])
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
