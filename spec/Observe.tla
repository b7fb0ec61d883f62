------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* What a recorded observation of a tuple, or its serialized form, tells   *)
(* about its contents.                                                     *)
(***************************************************************************)
EXTENDS Tuple, Wire

(* From observations to contents *)

Observed(c, o) ==
  [f \in 1..NF(c) |-> LET r == RawToken(c, f) IN
     IF IsColl(c[r]) THEN o[r].c ELSE o[r].v]

\* what each token shows agrees with the contents
ShowsValues(c, s, o) ==
  \A t \in 1..Len(c) :
    IF IsColl(c[t]) THEN o[t].c = s[c[t].f]
    ELSE LET x == Read(c[t], s[c[t].f]) IN x # <<>> => o[t].v = x
ShowsAbsence(c, s, o) ==
  \A t \in 1..Len(c) :
    /\ ~IsColl(c[t]) => o[t].v = Read(c[t], s[c[t].f])
    /\ o[t].p = (IF Present(c[t], s[c[t].f]) THEN 1 ELSE 0)

----------------------------------------------------------------------------
(* Contents of the serialized form *)

PreplacedOf(c) ==
  LET p == SelectSeq([n \in 1..NF(c) |-> c[2 * n]], IsStretchyP)
  IN [n \in 1..Len(p) |-> <<p[n].off, p[n].g>>]

Decoded(c, w) ==
  [f \in 1..NF(c) |-> LET t == c[RawToken(c, f)] IN
     CASE IsFixedP(t) -> PreplacedFixed(w, t.g, t.off)
       [] IsStretchyP(t) -> PreplacedStretchy(w, t.g, t.off)
       [] OTHER -> LooseValues(w, t.g, t.id)]

Carries(c, w, s) ==
  LET d == Decoded(c, w) IN
  \A f \in DOMAIN s :
    /\ Len(d[f]) = Len(s[f])
    /\ \A n \in 1..Len(s[f]) : Clipped(s[f][n]) = d[f][n]
=============================================================================
