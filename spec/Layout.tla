------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Reference model of the in-memory layout of a writable tuple: an index   *)
(* of descriptors which grows downwards and a payload which grows upwards  *)
(* inside of one buffer of constant size.                                  *)
(*                                                                         *)
(* l.h    free descriptors below the index                                 *)
(* l.t    free units above the payload                                     *)
(* l.top  units of payload, including the preplaced ones                   *)
(* l.idx  the index, the newest descriptor first; a descriptor is          *)
(*        [o owner, at first unit, u units]; owner 0 is a hole             *)
(* l.slot preplaced fields of variable size: <<>> or <<at, u>>             *)
(*                                                                         *)
(* All operators are pure: they map a layout to [ok, l]; ok = FALSE means  *)
(* lack of space, and then l is the unchanged layout.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Space

HoleDesc(at, u) == [o |-> 0, at |-> at, u |-> u]
PureDesc == HoleDesc(0, 0)
IsHole(d) == d.o = 0

Yes(l) == [ok |-> TRUE, l |-> l]
No(l)  == [ok |-> FALSE, l |-> l]

Holes(l) == {n \in 1..Len(l.idx) : IsHole(l.idx[n])}
BigHoles(l) == {n \in Holes(l) : l.idx[n].u > 0}
Volume(l) == LET RECURSIVE S(_) S(n) == IF n = 0 THEN 0
                   ELSE (IF IsHole(l.idx[n]) THEN l.idx[n].u ELSE 0) + S(n - 1)
             IN S(Len(l.idx))
HoleList(l) == LET hs == SelectSeq(l.idx, IsHole) IN [n \in 1..Len(hs) |-> hs[n].u]

SetDesc(l, n, d) == [l EXCEPT !.idx[n] = d]

\* drop released descriptors from the head of the index
RECURSIVE Trim(_)
Trim(l) ==
  IF l.idx = <<>> \/ ~IsHole(l.idx[1]) THEN l
  ELSE LET d == l.idx[1] IN
       IF d.u = 0
       THEN Trim([l EXCEPT !.idx = Tail(@), !.h = @ + 1])
       ELSE IF d.at + d.u = l.top
            THEN Trim([l EXCEPT !.idx = Tail(@), !.h = @ + 1,
                                !.top = @ - d.u, !.t = @ + d.u])
            ELSE l

\* turn the hole n into one without payload
Purge(l, n) ==
  LET l1 == SetDesc(l, n, PureDesc) IN IF n = 1 THEN Trim(l1) ELSE l1

\* hole of l with the least excess over u units, the lowest one if several
BestFit(l, u) ==
  LET c == {n \in BigHoles(l) : l.idx[n].u >= u}
  IN IF c = {} THEN 0
     ELSE CHOOSE n \in c : \A m \in c :
            \/ l.idx[n].u < l.idx[m].u
            \/ l.idx[n].u = l.idx[m].u /\ l.idx[n].at <= l.idx[m].at
FirstPure(l) ==
  LET c == {n \in Holes(l) : l.idx[n].u = 0}
  IN IF c = {} THEN 0 ELSE CHOOSE n \in c : \A m \in c : n <= m
Exact(l, u) ==
  LET c == {n \in BigHoles(l) : l.idx[n].u = u}
  IN IF c = {} THEN 0 ELSE CHOOSE n \in c : \A m \in c : n <= m

CanIndex(l) == FirstPure(l) > 0 \/ l.h > 0
\* put the descriptor d into the index
PutDesc(l, d) ==
  IF FirstPure(l) > 0 THEN SetDesc(l, FirstPure(l), d)
  ELSE [l EXCEPT !.h = @ - 1, !.idx = <<d>> \o @]

\* hole number by its first unit
HoleAt(l, at) == CHOOSE n \in BigHoles(l) : l.idx[n].at = at
Before(l, at) == {n \in BigHoles(l) : l.idx[n].at + l.idx[n].u = at}
After(l, at, u) == {n \in BigHoles(l) : l.idx[n].at = at + u}

\* unite adjacent holes which start at a and b; a is the lower one
Merge(l, a, b) ==
  LET n == HoleAt(l, a)  m == HoleAt(l, b)
      d == HoleDesc(a, l.idx[n].u + l.idx[m].u)
  IN IF n # 1 THEN Purge(SetDesc(l, n, d), m)
     ELSE Purge(SetDesc(l, m, d), n)

\* release the descriptor n with its payload
ReleaseLoose(l, n) ==
  LET d == l.idx[n] IN
  IF d.u = 0 THEN Purge(SetDesc(l, n, PureDesc), n)
  ELSE
    LET l1 == SetDesc(l, n, HoleDesc(d.at, d.u))
        b == Before(l1, d.at)
        a == After(l1, d.at, d.u)
        from == IF b = {} THEN d.at ELSE l1.idx[CHOOSE x \in b : TRUE].at
        after == IF a = {} THEN 0 ELSE l1.idx[CHOOSE x \in a : TRUE].at
        l2 == IF b = {} THEN l1 ELSE Merge(l1, from, d.at)
        l3 == IF a = {} THEN l2 ELSE Merge(l2, from, after)
    IN IF \E n2 \in BigHoles(l3) : l3.idx[n2].at = from /\ from + l3.idx[n2].u = l3.top
       THEN LET k == HoleAt(l3, from)
                u == l3.idx[k].u
            IN Purge([l3 EXCEPT !.top = @ - u, !.t = @ + u], k)
       ELSE l3     \* stays as a hole, unless it was trimmed while merging

\* new descriptor of owner o with u units
AllocLoose(l, o, u) ==
  IF u = 0
  THEN IF CanIndex(l) THEN Yes(PutDesc(l, [o |-> o, at |-> 0, u |-> 0])) ELSE No(l)
  ELSE LET b == BestFit(l, u) IN
    IF b = 0
    THEN IF l.t >= u /\ CanIndex(l)
         THEN Yes(PutDesc([l EXCEPT !.t = @ - u, !.top = @ + u],
                          [o |-> o, at |-> l.top, u |-> u]))
         ELSE No(l)
    ELSE IF l.idx[b].u = u
         THEN Yes(SetDesc(l, b, [o |-> o, at |-> l.idx[b].at, u |-> u]))
         ELSE IF CanIndex(l)
              THEN Yes(PutDesc(SetDesc(l, b, HoleDesc(l.idx[b].at + u, l.idx[b].u - u)),
                               [o |-> o, at |-> l.idx[b].at, u |-> u]))
              ELSE No(l)

\* a place for u units: [ok, l, at]
AllocData(l, u) ==
  LET b == BestFit(l, u) IN
  IF b = 0
  THEN IF l.t >= u
       THEN [ok |-> TRUE, l |-> [l EXCEPT !.t = @ - u, !.top = @ + u], at |-> l.top]
       ELSE [ok |-> FALSE, l |-> l, at |-> 0]
  ELSE IF l.idx[b].u = u
       THEN [ok |-> TRUE, l |-> Purge(l, b), at |-> l.idx[b].at]
       ELSE [ok |-> TRUE, at |-> l.idx[b].at,
             l |-> SetDesc(l, b, HoleDesc(l.idx[b].at + u, l.idx[b].u - u))]

\* give back the place of u units at unit `at' (it has no descriptor)
ReleaseData(l, at, u) ==
  LET b == Before(l, at)  a == After(l, at, u) IN
  IF at + u = l.top
  THEN LET l1 == [l EXCEPT !.top = @ - u, !.t = @ + u] IN
       IF b = {} THEN Yes(l1)
       ELSE LET n == CHOOSE x \in b : TRUE
                v == l.idx[n].u
            IN Yes(Purge([l1 EXCEPT !.top = @ - v, !.t = @ + v], n))
  ELSE IF b = {} /\ a = {}
       THEN IF CanIndex(l) THEN Yes(PutDesc(l, HoleDesc(at, u))) ELSE No(l)
  ELSE IF b = {}
       THEN LET n == CHOOSE x \in a : TRUE
            IN Yes(SetDesc(l, n, HoleDesc(at, u + l.idx[n].u)))
  ELSE LET n == CHOOSE x \in b : TRUE
           from == l.idx[n].at
           l1 == SetDesc(l, n, HoleDesc(from, u + l.idx[n].u))
       IN IF a = {} THEN Yes(l1) ELSE Yes(Merge(l1, from, at + u))

\* A reference to a chunk: descriptor of the index or a preplaced slot.  The
\* index may shift while holes come and go, hence owners are searched by place.
PutRef(l, at0, isSlot, s, at, u) ==
  IF isSlot THEN [l EXCEPT !.slot[s] = <<at, u>>]
  ELSE LET n == CHOOSE x \in 1..Len(l.idx) : l.idx[x].o = s /\ l.idx[x].at = at0
       IN SetDesc(l, n, [o |-> s, at |-> at, u |-> u])

\* replace a chunk of `have' units at `at' of the owner s by one of u units
Realloc(l, isSlot, s, at, have, u) ==
  LET Put(l2, at2) == Yes(PutRef(l2, at, isSlot, s, at2, u))
      last == at + have = l.top
      StretchTail ==
        IF u <= have \/ l.t >= u - have
        THEN Put([l EXCEPT !.top = @ - have + u, !.t = @ + have - u], at)
        ELSE No(l)
      b == Before(l, at)  a == After(l, at, have)
      near == (IF b = {} THEN 0 ELSE l.idx[CHOOSE x \in b : TRUE].u)
            + (IF a = {} THEN 0 ELSE l.idx[CHOOSE x \in a : TRUE].u)
      ReleaseThenAlloc ==
        LET r == ReleaseData(l, at, have)
            x == AllocData(r.l, u)
        IN IF r.ok /\ x.ok THEN Put(x.l, x.at) ELSE No(l)
  IN
  IF have = u THEN Yes(l)
  ELSE IF Volume(l) = 0
  THEN IF last THEN StretchTail
       ELSE IF ~CanIndex(l) THEN No(l)
       ELSE IF u > have
            THEN IF l.t < u THEN No(l)
                 ELSE Put(PutDesc([l EXCEPT !.top = @ + u, !.t = @ - u], HoleDesc(at, have)), l.top)
            ELSE Put(PutDesc(l, HoleDesc(at + u, have - u)), at)
  ELSE IF have < u /\ have + near >= u THEN ReleaseThenAlloc
  ELSE IF near = 0 /\ ~CanIndex(l)
  THEN LET e == Exact(l, u) IN
       IF e > 0
       THEN \* exchange places with a hole of the exact size
            LET l1 == PutRef(SetDesc(l, e, HoleDesc(at, have)), at, isSlot, s, l.idx[e].at, u)
            IN IF last
               THEN Yes(Purge([l1 EXCEPT !.top = @ - have, !.t = @ + have], e))
               ELSE Yes(l1)
       ELSE IF last THEN StretchTail ELSE No(l)
  ELSE IF have > u \/ l.t >= u \/ BestFit(l, u) > 0 THEN ReleaseThenAlloc
  ELSE No(l)

----------------------------------------------------------------------------
(* Maintenance *)

\* remove holes from the index, then move the payload together
Compact(l, pu) ==
  LET idx1 == SelectSeq(l.idx, LAMBDA d : ~IsHole(d))
      gone == Len(l.idx) - Len(idx1)
      places == {idx1[n].at : n \in {x \in 1..Len(idx1) : idx1[x].u > 0}}
                \cup {l.slot[s][1] : s \in {x \in DOMAIN l.slot : l.slot[x] # <<>>}}
      UnitsAt(p) ==
        IF \E n \in 1..Len(idx1) : idx1[n].u > 0 /\ idx1[n].at = p
        THEN idx1[CHOOSE n \in 1..Len(idx1) : idx1[n].u > 0 /\ idx1[n].at = p].u
        ELSE l.slot[CHOOSE s \in DOMAIN l.slot : l.slot[s] # <<>> /\ l.slot[s][1] = p][2]
      RECURSIVE Sum(_)
      Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN UnitsAt(x) + Sum(S \ {x})
      NewAt(p) == pu + Sum({q \in places : q < p})
      v == Volume(l)
  IN [h |-> l.h + gone,
      t |-> l.t + v,
      top |-> l.top - v,
      idx |-> [n \in 1..Len(idx1) |->
                IF idx1[n].u = 0 THEN idx1[n] ELSE [idx1[n] EXCEPT !.at = NewAt(@)]],
      slot |-> [s \in DOMAIN l.slot |->
                 IF l.slot[s] = <<>> THEN <<>> ELSE <<NewAt(l.slot[s][1]), l.slot[s][2]>>]]

----------------------------------------------------------------------------
(* What has to hold for every layout *)

Chunks(l) ==
  SelectSeq([n \in 1..Len(l.idx) |-> <<l.idx[n].at, l.idx[n].u>>]
            \o [s \in 1..Len(l.slot) |-> IF l.slot[s] = <<>> THEN <<0, 0>> ELSE l.slot[s]],
            LAMBDA c : c[2] > 0)

TilesPayload(l, pu) ==
  LET ch == Chunks(l)
      starts == {ch[n][1] : n \in 1..Len(ch)}
      ends == {ch[n][1] + ch[n][2] : n \in 1..Len(ch)}
  IN /\ Cardinality(starts) = Len(ch)
     /\ starts \subseteq (ends \cup {pu})
     /\ ends \subseteq (starts \cup {l.top})
     /\ IF ch = <<>> THEN l.top = pu ELSE pu \in starts /\ l.top \in ends

Balanced(l, cap) == l.h >= 0 /\ l.t >= 0 /\ l.h + Len(l.idx) + l.top + l.t = cap

\* holes are merged, never touch the free tail, and a pure one is never first
Tidy(l) ==
  /\ \A n, m \in BigHoles(l) : l.idx[n].at + l.idx[n].u # l.idx[m].at
  /\ \A n \in BigHoles(l) : l.idx[n].at + l.idx[n].u # l.top
  /\ l.idx # <<>> => ~(IsHole(l.idx[1]) /\ l.idx[1].u = 0)
=============================================================================
