-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Natural numbers of any size: sequences of digits to the base 10000, the *)
(* least significant first, without leading zeros; zero is <<>>.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Base == 10000
Max2(a, b) == IF a > b THEN a ELSE b
DigitAt(a, k) == IF k <= Len(a) THEN a[k] ELSE 0

RECURSIVE Norm(_)
Norm(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] # 0 THEN a ELSE Norm(SubSeq(a, 1, Len(a) - 1))

RECURSIVE Carry(_, _, _, _)
\* brings digits below Base; a: digits which could be up to 2*10^9 or so
Carry(a, k, c, acc) ==
  IF k > Len(a) THEN IF c = 0 THEN acc ELSE Carry(a, k + 1, c \div Base, Append(acc, c % Base))
  ELSE LET x == a[k] + c IN Carry(a, k + 1, x \div Base, Append(acc, x % Base))
Fix(a) == Norm(Carry(a, 1, 0, <<>>))

OfInt(n) == Fix(<<n>>)
Add(a, b) == Fix([k \in 1..Max2(Len(a), Len(b)) |-> DigitAt(a, k) + DigitAt(b, k)])
MulInt(a, n) == Fix([k \in 1..Len(a) |-> a[k] * n])          \* n <= 100000
AddInt(a, n) == Add(a, OfInt(n))
Shift(a, n) == IF a = <<>> THEN a ELSE [k \in 1..n |-> 0] \o a  \* by Base^n

RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, acc) ==
  IF k > Len(b) THEN acc
  ELSE MulFrom(a, b, k + 1, IF b[k] = 0 THEN acc ELSE Add(acc, Shift(MulInt(a, b[k]), k - 1)))
Mul(a, b) == IF Len(a) < Len(b) THEN MulFrom(b, a, 1, <<>>) ELSE MulFrom(a, b, 1, <<>>)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpFrom(a, b, k - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
Leq(a, b) == Cmp(a, b) <= 0
Less(a, b) == Cmp(a, b) < 0

\* sequence of bytes, the least significant first
RECURSIVE BytesFrom(_, _, _)
BytesFrom(b, k, acc) == IF k = 0 THEN acc ELSE BytesFrom(b, k - 1, AddInt(MulInt(acc, 256), b[k]))
OfBytes(b) == BytesFrom(b, Len(b), <<>>)

\* a sequence of decimal digits, the most significant first
RECURSIVE DecFrom(_, _, _)
DecFrom(d, k, acc) == IF k > Len(d) THEN acc ELSE DecFrom(d, k + 1, AddInt(MulInt(acc, 10), d[k]))
OfDecimal(d) == DecFrom(d, 1, <<>>)

Four(x) == <<x \div 1000, (x \div 100) % 10, (x \div 10) % 10, x % 10>>
RECURSIVE DecOf(_, _, _)
DecOf(a, k, acc) == IF k = 0 THEN acc ELSE DecOf(a, k - 1, acc \o Four(a[k]))
RECURSIVE NoLead(_)
NoLead(d) == IF Len(d) > 1 /\ d[1] = 0 THEN NoLead(Tail(d)) ELSE d
\* its decimal digits
Decimal(a) == IF a = <<>> THEN <<0>> ELSE NoLead(DecOf(a, Len(a), <<>>))

\* powers
RECURSIVE TableFrom(_, _)
TableFrom(n, acc) == IF Len(acc) = n THEN acc ELSE TableFrom(n, Append(acc, MulInt(acc[Len(acc)], 8192)))
ASSUME TLCSet(8192, TLCEval(TableFrom(90, << <<1>> >>)))    \* just a cache
Powers8192 == TLCGet(8192)
SmallPow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>
Pow2(n) == MulInt(Powers8192[(n \div 13) + 1], SmallPow2[(n % 13) + 1])   \* n < 1170
MulPow10(a, n) == MulInt(Shift(a, n \div 4), <<1, 10, 100, 1000>>[(n % 4) + 1])
=============================================================================
