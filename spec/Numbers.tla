------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Exact numbers.  A finite number is [neg, ones]: its magnitude is the    *)
(* sum of 2^p over p in the set ones; p is negative for binary fractions.  *)
(* So 64- and 128-bit integers and IEEE-754 numbers are handled without    *)
(* any machine arithmetic.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Num(neg, ones) == [neg |-> neg /\ ones # {}, ones |-> ones]
Zero == Num(FALSE, {})

\* b: sequence of bytes, little-endian
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(b, n) == (b[(n \div 8) + 1] \div Pow2[(n % 8) + 1]) % 2
BitsOf(b) == {n \in 0..(8 * Len(b) - 1) : Bit(b, n) = 1}
ByteOf(ones, k) ==
  FoldSet(LAMBDA p, acc : acc + Pow2[p - 8 * k + 1], 0, {p \in ones : p >= 8 * k /\ p < 8 * k + 8})

\* two's complement of w bits
FromBits(ones, w, signed) ==
  IF ~signed \/ (w - 1) \notin ones THEN Num(FALSE, ones)
  ELSE LET low == Min(ones)
       IN Num(TRUE, {low} \cup {p \in (low + 1)..(w - 1) : p \notin ones})

\* IEEE-754: mant bits of fraction, exp bits of exponent; finite
FromFloat(ones, mant, exp) ==
  LET e == FoldSet(LAMBDA p, acc : acc + 2 ^ (p - mant), 0, {p \in ones : p >= mant /\ p < mant + exp})
      bias == 2 ^ (exp - 1) - 1
      frac == {p \in ones : p < mant}
      shift == (IF e = 0 THEN 1 ELSE e) - bias - mant
      sig == IF e = 0 THEN frac ELSE frac \cup {mant}
  IN Num(mant + exp \in ones, {p + shift : p \in sig})
FiniteFloat(ones, mant, exp) == ~((mant..(mant + exp - 1)) \subseteq ones)

\* order
MagLess(a, b) == LET d == (a \ b) \cup (b \ a) IN d # {} /\ Max(d) \in b
MagLeq(a, b) == a = b \/ MagLess(a, b)
Less(x, y) ==
  IF x.neg # y.neg THEN x.neg
  ELSE IF x.neg THEN MagLess(y.ones, x.ones) ELSE MagLess(x.ones, y.ones)
Leq(x, y) == x = y \/ Less(x, y)

\* towards zero
Trunc(x) == Num(x.neg, {p \in x.ones : p >= 0})
IsInteger(x) == \A p \in x.ones : p >= 0

\* adds 2^q
AddPow(s, q) ==
  LET r == CHOOSE r \in q..(q + Cardinality(s)) :
             r \notin s /\ \A t \in q..(r - 1) : t \in s
  IN (s \ (q..(r - 1))) \cup {r}

\* to the nearest number of at most `prec' significant bits and no bits below
\* `low', ties to even
Nearest(x, prec, low) ==
  IF x.ones = {} THEN x
  ELSE LET top == Max(x.ones)
           q == IF top - prec + 1 < low THEN low ELSE top - prec + 1
           keep == {p \in x.ones : p >= q}
           rest == {p \in x.ones : p < q - 1}
           half == (q - 1) \in x.ones
       IN Num(x.neg, IF half /\ (rest # {} \/ q \in keep) THEN AddPow(keep, q) ELSE keep)

Ones(a, b) == a..b                       \* 2^(b+1) - 2^a
MaxSigned(w) == Num(FALSE, 0..(w - 2))
MinSigned(w) == Num(TRUE, {w - 1})
MinSignedPlus1(w) == Num(TRUE, 0..(w - 2))
MaxUnsigned(w) == Num(FALSE, 0..(w - 1))
=============================================================================
