----------------------------- MODULE NumbersMC -----------------------------
(***************************************************************************)
(* The definitions of Numbers against plain arithmetic, exhaustively on    *)
(* small numbers: all subsets of the positions -Frac..Whole.                 *)
(***************************************************************************)
EXTENDS Numbers, TLC

CONSTANTS Frac, Whole, W
VARIABLES x, y
vars == <<x, y>>

Positions == (-Frac)..Whole
Nums == {Num(n, s) : n \in BOOLEAN, s \in SUBSET Positions}

\* scaled by 2^Frac
Val(a) == LET m == FoldSet(LAMBDA p, acc : acc + 2 ^ (p + Frac), 0, a.ones)
          IN IF a.neg THEN -m ELSE m
Abs(n) == IF n < 0 THEN -n ELSE n

Init == x \in Nums /\ y \in Nums
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

OrderOK == /\ Less(x, y) <=> Val(x) < Val(y)
           /\ Leq(x, y) <=> Val(x) <= Val(y)
           /\ (x = y) <=> Val(x) = Val(y)
\* the largest in magnitude integer not beyond x
TruncOK == LET t == Val(Trunc(x))  one == 2 ^ Frac IN
  /\ t % one = 0
  /\ Abs(t) <= Abs(Val(x)) /\ Abs(Val(x)) - Abs(t) < one
  /\ t # 0 => (t < 0) = (Val(x) < 0)
\* y is a candidate: has at most 3 significant bits, none below -1
Candidate(a) == \/ a.ones = {}
                \/ Max(a.ones) - Min(a.ones) < 3 /\ Min(a.ones) >= -1
NearestOK == LET r == Nearest(x, 3, -1)  d == Abs(Val(x) - Val(r)) IN
  /\ Candidate(r)
  /\ Candidate(y) => d <= Abs(Val(x) - Val(y))
\* two's complement of W bits: all patterns
Pattern(a) == FoldSet(LAMBDA p, acc : acc + 2 ^ p, 0, a)
DecodeOK ==
  \A s \in SUBSET (0..(W - 1)) :
    LET u == FromBits(s, W, FALSE)  i == FromBits(s, W, TRUE)
        iv == (IF i.neg THEN -1 ELSE 1) * Pattern(i.ones)
    IN /\ Pattern(u.ones) = Pattern(s)
       /\ iv = IF Pattern(s) >= 2 ^ (W - 1) THEN Pattern(s) - 2 ^ W ELSE Pattern(s)
\* a float of 3 bits of fraction and 3 bits of exponent (bias 3)
FloatOK ==
  \A s \in SUBSET (0..6) :
    LET n == FromFloat(s, 3, 3)
        m == Pattern({p \in s : p < 3})
        e == Pattern({p - 3 : p \in {q \in s : q >= 3 /\ q < 6}})
        \* scaled by 2^5
        v == IF e = 0 THEN m ELSE (8 + m) * 2 ^ (e - 1)
        got == FoldSet(LAMBDA p, acc : acc + 2 ^ (p + 5), 0, n.ones)
    IN got = v /\ n.neg = (6 \in s /\ v # 0)
ASSUME DecodeOK
ASSUME FloatOK
=============================================================================
