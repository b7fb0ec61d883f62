------------------------------- MODULE BigMC --------------------------------
(* The arithmetic of Big against the integers of TLC, all pairs of a small  *)
(* world (with numbers around powers of the base).                         *)
EXTENDS Big
CONSTANT Upto
World == (0..Upto) \cup (9990..10010) \cup {19999, 20000, 20001, 32767, 40000, 44721}
VARIABLES a, b
Init == a \in World /\ b \in World
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
RECURSIVE ToInt(_, _)
ToInt(x, k) == IF k > Len(x) THEN 0 ELSE x[k] + Base * ToInt(x, k + 1)
N(x) == ToInt(x, 1)
A == OfInt(a)
B == OfInt(b)
Representation == N(A) = a /\ Norm(A) = A /\ \A k \in 1..Len(A) : A[k] \in 0..9999
Sums == N(Add(A, B)) = a + b
Products == N(Mul(A, B)) = a * b /\ N(MulInt(A, b)) = a * b
Order == Cmp(A, B) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
Bytes == N(OfBytes(<<a % 256, a \div 256, b % 128>>)) = a + 65536 * (b % 128)
Digits == OfDecimal(Decimal(A)) = A /\ (a > 0 => Decimal(A)[1] # 0)
Powers == /\ b <= 15 /\ a <= 65535 => N(Mul(A, Pow2(b))) = a * 2^b
          /\ b <= 4 => N(MulPow10(A, b)) = a * 10^b
=============================================================================
