------------------------------ MODULE LayoutMC ------------------------------
(***************************************************************************)
(* Bounded exploration of the reference layout: every state reachable with *)
(* a few fields in a small buffer.  Checks the invariants of Layout, the   *)
(* soundness of the rules of Space, and prints the transitions (Edge) to   *)
(* be replayed on the real library.                                        *)
(*                                                                         *)
(* Owners: 1..NL loose single fields, NL+1..NL+NC collections (limited to  *)
(* MaxItems items each), then one in-placed field if Tiny.                 *)
(***************************************************************************)
EXTENDS Layout, TLC

CONSTANTS NL, NC, NS, Tiny, MaxItems, Sizes, H0, T0, Emit

VARIABLE lay
Pu == NS            \* one unit per preplaced slot
Cap == H0 + T0 + Pu
Loose == 1..NL
Colls == (NL + 1)..(NL + NC)
Tinies == IF Tiny THEN {NL + NC + 1} ELSE {}
Slots == 1..NS

Init == lay = [h |-> H0, t |-> T0, top |-> Pu, idx |-> <<>>,
               slot |-> [s \in Slots |-> <<>>]]

Own(l, o) == {n \in 1..Len(l.idx) : l.idx[n].o = o}
The(l, o) == CHOOSE n \in Own(l, o) : TRUE
\* the k-th item in the order of iteration
Item(l, o, k) == CHOOSE n \in Own(l, o) : Cardinality({m \in Own(l, o) : m < n}) = k - 1

\* operation descriptors and their meaning
Apply(op, l) ==
  CASE op[1] = "set" -> LET o == op[2]  u == op[3] IN
         IF Own(l, o) = {} THEN AllocLoose(l, o, u)
         ELSE Realloc(l, FALSE, o, l.idx[The(l, o)].at, l.idx[The(l, o)].u, u)
    [] op[1] = "tiny" -> IF Own(l, op[2]) = {} THEN AllocLoose(l, op[2], 0) ELSE Yes(l)
    [] op[1] = "era" -> IF Own(l, op[2]) = {} THEN Yes(l)
                        ELSE Yes(ReleaseLoose(l, The(l, op[2])))
    [] op[1] = "ins" -> AllocLoose(l, op[2], op[3])
    [] op[1] = "erx" -> Yes(ReleaseLoose(l, Item(l, op[2], op[3])))
    [] op[1] = "upd" -> LET d == l.idx[Item(l, op[2], op[3])] IN
                        Realloc(l, FALSE, op[2], d.at, d.u, op[4])
    [] op[1] = "sset" -> LET c == l.slot[op[2]]  x == AllocData(l, op[3]) IN
         IF c = <<>>
         THEN IF x.ok THEN Yes([x.l EXCEPT !.slot[op[2]] = <<x.at, op[3]>>]) ELSE No(l)
         ELSE Realloc(l, TRUE, op[2], c[1], c[2], op[3])
    [] op[1] = "sera" -> LET c == l.slot[op[2]] IN
         IF c = <<>> THEN Yes(l)
         ELSE LET r == ReleaseData(l, c[1], c[2]) IN
              IF r.ok THEN Yes([r.l EXCEPT !.slot[op[2]] = <<>>]) ELSE No(l)
    [] op[1] = "opt" -> Yes(Compact(l, Pu))

Ops(l) ==
  ({"set"} \X Loose \X Sizes)
  \cup ({"era"} \X (Loose \cup Tinies))
  \cup ({"tiny"} \X Tinies)
  \cup UNION {{"ins"} \X {o} \X Sizes : o \in {c \in Colls : Cardinality(Own(l, c)) < MaxItems}}
  \cup UNION {{"erx"} \X {o} \X (1..Cardinality(Own(l, o))) : o \in Colls}
  \cup UNION {{"upd"} \X {o} \X (1..Cardinality(Own(l, o))) \X Sizes : o \in Colls}
  \cup ({"sset"} \X Slots \X Sizes)
  \cup ({"sera"} \X Slots)
  \cup {<<"opt">>}

\* the rules of Space promise success
Promised(op, l) ==
  LET hl == HoleList(l) IN
  CASE op[1] = "set" ->
         IF Own(l, op[2]) = {} THEN FitsNew(l.h, l.t, hl, op[3])
         ELSE FitsResize(l.h, l.t, hl, l.idx[The(l, op[2])].u, op[3])
    [] op[1] = "tiny" -> Own(l, op[2]) # {} \/ FitsNew(l.h, l.t, hl, 0)
    [] op[1] = "ins" -> FitsNew(l.h, l.t, hl, op[3])
    [] op[1] = "upd" -> FitsResize(l.h, l.t, hl, l.idx[Item(l, op[2], op[3])].u, op[4])
    [] op[1] = "sset" ->
         IF l.slot[op[2]] = <<>> THEN FitsData(l.h, l.t, hl, op[3])
         ELSE FitsResize(l.h, l.t, hl, l.slot[op[2]][2], op[3])
    [] op[1] = "sera" -> l.slot[op[2]] = <<>> \/ FitsRelease(l.h, l.t, hl)
    [] OTHER -> TRUE

Canon(l) == <<l.h, l.t, l.top, [n \in 1..Len(l.idx) |-> <<l.idx[n].o, l.idx[n].at, l.idx[n].u>>], l.slot>>

Do(op) ==
  LET r == Apply(op, lay) IN
  /\ Assert(Promised(op, lay) => r.ok, <<"the space rules are unsound", op, lay>>)
  /\ lay' = r.l
  /\ Emit => PrintT("EDGE#" \o ToString(Canon(lay)) \o "#" \o ToString(op) \o "#" \o ToString(r.ok)
                      \o "#" \o ToString(Canon(r.l)))

Next == \E op \in Ops(lay) : Do(op)
Spec == Init /\ [][Next]_lay

----------------------------------------------------------------------------
Sound == TilesPayload(lay, Pu) /\ Balanced(lay, Cap) /\ Tidy(lay)

\* the units held by each owner; used to state that operations touch only
\* what they are told to
Held(l, o) == LET d == SelectSeq(l.idx, LAMBDA x : x.o = o)
              IN [n \in 1..Len(d) |-> d[n].u]

\* compaction leaves no holes and keeps what every owner holds, in order
CompactOK ==
  LET c == Compact(lay, Pu) IN
  /\ Holes(c) = {}
  /\ TilesPayload(c, Pu) /\ Balanced(c, Cap)
  /\ \A o \in 1..(NL + NC + 1) : Held(c, o) = Held(lay, o)
  /\ \A s \in Slots : (lay.slot[s] = <<>>) = (c.slot[s] = <<>>)
                   /\ lay.slot[s] # <<>> => c.slot[s][2] = lay.slot[s][2]
  /\ Compact(c, Pu) = c

\* no leak: erasing everything returns all the space
RECURSIVE EraseAll(_)
EraseAll(l) ==
  LET c == {n \in 1..Len(l.idx) : ~IsHole(l.idx[n])} IN
  IF c = {} THEN l ELSE EraseAll(ReleaseLoose(l, CHOOSE n \in c : TRUE))
NoLeak ==
  (\A s \in Slots : lay.slot[s] = <<>>) =>
     LET e == EraseAll(lay) IN e.idx = <<>> /\ e.h = H0 /\ e.t = T0 /\ e.top = Pu
=============================================================================
