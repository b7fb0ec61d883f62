----------------------------- MODULE TimeTrace ------------------------------
(***************************************************************************)
(* Time stamps: unsigned 32.32 fixed-point seconds.  All numbers are       *)
(* recorded as little-endian bytes.  Conversions round down.               *)
(*   from     v units of f per second    -> stamp r                        *)
(*   parts    s seconds and p of f parts -> stamp r                        *)
(*   tofrac   v of f parts -> fraction r;  fromfrac: fraction v -> r parts *)
(*   stamp    parts of the stamp v; dsec, dfrac are IEEE-754 doubles       *)
(*   order    comparisons;  now  the current time between lo and hi, with  *)
(*            `bits' low bits cleared                                      *)
(***************************************************************************)
EXTENDS Big, FiniteSets, Json, IOUtils
N == INSTANCE Numbers

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

\* r = floor(a / b)
Floor(r, a, b) == Leq(Mul(r, b), a) /\ Less(a, Mul(AddInt(r, 1), b))
Two32 == Pow2(32)
Bt(p) == IF p THEN 1 ELSE 0

Low(b, n) == SubSeq(b, 1, n)
Zeros(n) == [k \in 1..n |-> 0]
Float(b) == N!FromFloat(N!BitsOf(b), 52, 11)
\* the fixed-point number of bytes b as an exact number
Exact(b, point) == N!Num(FALSE, {p - point : p \in N!BitsOf(b)})
Cleared(b, n) == N!Num(FALSE, {p \in N!BitsOf(b) : p >= n})

C22(e) ==
  CASE e.e = "from" -> Floor(OfBytes(e.r), Mul(OfBytes(e.v), Two32), OfBytes(e.f))
    [] e.e = "parts" ->
         /\ SubSeq(e.r, 5, 8) = Low(e.s, 4)
         /\ Floor(OfBytes(Low(e.r, 4)), Mul(OfBytes(e.p), Two32), OfBytes(e.f))
    [] e.e = "tofrac" -> Floor(OfBytes(e.r), Mul(OfBytes(e.v), Two32), OfBytes(e.f))
    [] e.e = "fromfrac" -> Floor(OfBytes(e.r), Mul(OfBytes(e.v), OfBytes(e.f)), Two32)
    [] e.e = "stamp" ->
         /\ e.back = e.v /\ e.again = e.v
         /\ e.utc = SubSeq(e.v, 5, 8) \o Zeros(4) /\ e.frac = Low(e.v, 4) \o Zeros(4)
         /\ Float(e.dfrac) = Exact(Low(e.v, 4), 32)
         /\ Float(e.dsec) = N!Nearest(Exact(e.v, 32), 53, -1074)
    [] e.e = "order" ->
         LET c == Cmp(OfBytes(e.a), OfBytes(e.b)) IN
         /\ e.eq = Bt(c = 0) /\ e.ne = Bt(c # 0) /\ e.lt = Bt(c < 0) /\ e.gt = Bt(c > 0)
         /\ e.le = Bt(c <= 0) /\ e.ge = Bt(c >= 0)
    [] e.e = "now" ->
         LET r == N!Num(FALSE, N!BitsOf(e.r)) IN
         /\ r = Cleared(e.r, e.bits)
         /\ N!Leq(Cleared(e.lo, e.bits), r)
         /\ N!Leq(r, N!Num(FALSE, N!BitsOf(e.hi)))

Judge(e) == {p \in Props : ~C22(e)}

Init == i = 0 /\ bad = {}
Step == /\ i < Len(Trace)
        /\ bad' = Judge(Trace[i + 1])
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
