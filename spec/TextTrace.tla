----------------------------- MODULE TextTrace ------------------------------
(***************************************************************************)
(* Numbers as text.                                                        *)
(*   int  magnitude v (bytes), neg -> characters t                         *)
(*   dbl  the double (-1)^neg * m * 2^x (cls: 0 finite 1 inf 2 nan; edge:  *)
(*        the gap below it is a half of the gap above) -> characters t     *)
(*        by d2a_fast (k=0), d2a_accurate (1), shodan printers (2, 3)      *)
(***************************************************************************)
EXTENDS Big, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

Zero == 48   Minus == 45   Plus == 43   Dot == 46   Exp == 101
IsDigit(c) == c >= 48 /\ c <= 57
Chars(d) == [k \in 1..Len(d) |-> d[k] + 48]
Digits(t) == [k \in 1..Len(t) |-> t[k] - 48]

\* integers: the canonical decimal notation
C23(e) == e.e = "int" =>
  /\ e.room = 1
  /\ e.t = (IF e.neg = 1 THEN <<Minus>> ELSE <<>>) \o Chars(Decimal(OfBytes(e.v)))

\* doubles: digits [. digits] [e (+|-) digits]
RECURSIVE Run(_, _)
Run(t, k) == IF k <= Len(t) /\ IsDigit(t[k]) THEN Run(t, k + 1) ELSE k   \* the end of digits
RECURSIVE SmallInt(_, _, _)
SmallInt(d, k, acc) == IF k > Len(d) THEN acc ELSE SmallInt(d, k + 1, acc * 10 + d[k])

\* [ok, dig, exp]: the number is dig * 10^exp
Parse(t) ==
  LET a == Run(t, 1)
      dot == a <= Len(t) /\ t[a] = Dot
      b == IF dot THEN Run(t, a + 1) ELSE a
      frac == IF dot THEN b - a - 1 ELSE 0
      ints == SubSeq(t, 1, a - 1)
      digs == Digits(ints \o (IF dot THEN SubSeq(t, a + 1, b - 1) ELSE <<>>))
      ex == b <= Len(t) /\ t[b] = Exp /\ b + 1 <= Len(t) /\ t[b + 1] \in {Plus, Minus}
      c == IF ex THEN Run(t, b + 2) ELSE b
      e10 == IF ex /\ c > b + 2 /\ c - b - 2 <= 4 THEN SmallInt(Digits(SubSeq(t, b + 2, c - 1)), 1, 0) ELSE 0
  IN [ok |-> a > 1 /\ c > Len(t) /\ (ex => c > b + 2 /\ c - b - 2 <= 4),
      dig |-> OfDecimal(digs),
      exp |-> (IF ex /\ t[b + 1] = Minus THEN 0 - e10 ELSE e10) - frac]

\* sign of (a * 10^p) - (b * 2^q)
CmpScaled(a, p, b, q) ==
  LET l == IF p >= 0 THEN MulPow10(a, p) ELSE a
      r == IF p >= 0 THEN b ELSE MulPow10(b, 0 - p)
  IN Cmp(IF q >= 0 THEN l ELSE Mul(l, Pow2(0 - q)), IF q >= 0 THEN Mul(r, Pow2(q)) ELSE r)

Nan == <<110, 97, 110>>
Inf == <<105, 110, 102>>
\* reading of the text yields the very same number: it lies within the halves
\* of the gaps around, and on their middles only if that rounds to even
Reads(e, t) ==
  LET n == Parse(t)
      m == OfBytes(e.m)
      even == e.m[1] % 2 = 0
      m4 == MulInt(m, 4)
      hi == CmpScaled(n.dig, n.exp, AddInt(m4, 2), e.x - 2)
      \* (4m - gap) * 2^(x-2) <= n   as   4m <= n/2^(x-2) + gap; both in 2^(x-2)
      gap == IF e.edge = 1 THEN 1 ELSE 2
      lo == LET l == IF n.exp >= 0 THEN MulPow10(n.dig, n.exp) ELSE n.dig
                q == e.x - 2
                s == IF n.exp >= 0 THEN 0 ELSE 0 - n.exp
                unit(u) == LET v == MulPow10(u, s) IN IF q >= 0 THEN Mul(v, Pow2(q)) ELSE v
                left == IF q >= 0 THEN l ELSE Mul(l, Pow2(0 - q))
            IN Cmp(Add(left, unit(OfInt(gap))), unit(m4))
  IN /\ n.ok
     /\ IF m = <<>> THEN n.dig = <<>>
        ELSE /\ n.dig # <<>>
             /\ IF even THEN hi <= 0 /\ lo >= 0 ELSE hi < 0 /\ lo > 0

MaxChars == 23
C29(e) == e.e = "dbl" =>
  LET t == IF e.neg = 1 /\ e.t # <<>> THEN Tail(e.t) ELSE e.t IN
  /\ e.room = 1
  /\ e.k < 2 => Len(e.t) <= MaxChars
  /\ e.neg = 1 => e.t # <<>> /\ e.t[1] = Minus
  /\ CASE e.cls = 2 -> t = Nan
       [] e.cls = 1 -> t = Inf
       [] OTHER -> Reads(e, t)

Judge(e) == {p \in Props : \/ p = "C23" /\ ~C23(e)
                           \/ p = "C29" /\ ~C29(e)}

Init == i = 0 /\ bad = {}
Step == /\ i < Len(Trace)
        /\ bad' = Judge(Trace[i + 1])
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
