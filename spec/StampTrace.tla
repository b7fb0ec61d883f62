----------------------------- MODULE StampTrace -----------------------------
(***************************************************************************)
(* Time stamps, bytes and types as text.                                   *)
(*   stamp  v: bytes of the 32.32 stamp -> characters t                    *)
(*          "YYYY-MM-DDZhh:mm:ss.nnnnnnnnn", the nearest nanosecond        *)
(*   hex    bytes v -> characters t, two digits per byte                   *)
(*   types  names of all the types                                         *)
(***************************************************************************)
EXTENDS Big, Calendar, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

IsDigit(c) == c >= 48 /\ c <= 57
Shape == <<0, 0, 0, 0, 45, 0, 0, 45, 0, 0, 90, 0, 0, 58, 0, 0, 58, 0, 0, 46, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
WellFormed(t) == /\ Len(t) = Len(Shape)
                 /\ \A k \in 1..Len(t) : IF Shape[k] = 0 THEN IsDigit(t[k]) ELSE t[k] = Shape[k]
RECURSIVE Num(_, _, _)
Num(t, a, b) == IF b < a THEN 0 ELSE Num(t, a, b - 1) * 10 + t[b] - 48
Billion == Mul(OfInt(100000), OfInt(10000))

\* nanoseconds since the epoch by the text
Nanoseconds(t) ==
  LET days == DaysOf(Num(t, 1, 4), Num(t, 6, 7), Num(t, 9, 10))
      rest == (Num(t, 12, 13) * 60 + Num(t, 15, 16)) * 60 + Num(t, 18, 19)
  IN Add(Mul(Add(Mul(OfInt(days), OfInt(86400)), OfInt(rest)), Billion), OfInt(Num(t, 21, 29)))

\* |n / 10^9 - v / 2^32| <= 10^-9 / 2
Nearest(n, v) ==
  LET a == MulInt(Mul(n, Pow2(32)), 2)
      b == MulInt(Mul(v, Billion), 2)
  IN Leq(a, Add(b, Pow2(32))) /\ Leq(b, Add(a, Pow2(32)))

Stamp(t, v) ==
  /\ WellFormed(t)
  /\ Num(t, 1, 4) \in 1970..2200
  /\ IsDate(Num(t, 1, 4), Num(t, 6, 7), Num(t, 9, 10))
  /\ Num(t, 12, 13) < 24 /\ Num(t, 15, 16) < 60 /\ Num(t, 18, 19) < 60
  /\ Nearest(Nanoseconds(t), OfBytes(v))

HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Hex(v) == [k \in 1..(2 * Len(v)) |-> LET x == v[(k + 1) \div 2] IN HexDigit(IF k % 2 = 1 THEN x \div 16 ELSE x % 16)]

C30(e) == CASE e.e = "stamp" -> Stamp(e.t, e.v)
            [] e.e = "hex" -> e.t = Hex(e.v)
            [] e.e = "types" -> \A a, b \in 1..Len(e.names) : /\ e.names[a] # <<>>
                                                              /\ a # b => e.names[a] # e.names[b]
Judge(e) == {p \in Props : ~C30(e)}

Init == i = 0 /\ bad = {}
Step == /\ i < Len(Trace)
        /\ bad' = Judge(Trace[i + 1])
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
