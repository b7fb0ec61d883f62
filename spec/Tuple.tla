-------------------------------- MODULE Tuple --------------------------------
(***************************************************************************)
(* The data model of a tuple: what a user of the library may rely on.      *)
(*                                                                         *)
(* cfg  sequence of ways to name a field ("tokens"); token t is a record   *)
(*      [f field, k kind, g genus, d discernible null, init]               *)
(*      kind: "L" loose, "P" preplaced, "C" collection (of loose items)    *)
(* st   the contents: st[f] is                                             *)
(*      - for "L" and stretchy "P": <<>> when absent, <<value>> otherwise  *)
(*      - for fixed-size "P":       <<value>> (the place always exists)    *)
(*      - for "C":                  the items in the order of iteration    *)
(* Operations are given by their pre/post-conditions.  Everything here is  *)
(* independent from the layout of a tuple in memory, see Layout and Wire.  *)
(***************************************************************************)
EXTENDS Values, TLC

IsFixedP(t)    == t.k = "P" /\ t.g \notin Stretchy
IsStretchyP(t) == t.k = "P" /\ t.g \in Stretchy
IsColl(t)      == t.k = "C"
Disc(t)        == t.d = 1

Fields(cfg) == {cfg[i].f : i \in 1..Len(cfg)}
NF(cfg) == Len(cfg) \div 2        \* each field is known by two tokens
TokensOf(cfg, f) == {i \in 1..Len(cfg) : cfg[i].f = f}

\* the token which shows the raw contents of a field
RawToken(cfg, f) ==
  CHOOSE i \in TokensOf(cfg, f) :
    Disc(cfg[i]) = ~IsFixedP(cfg[i])

----------------------------------------------------------------------------
(* Observations through a token                                            *)

Present(t, s) ==
  CASE IsFixedP(t) -> IF Disc(t) THEN ~Denil(t.g, s[1]) ELSE TRUE
    [] OTHER -> Len(s) > 0

\* <<v>> or <<>> when the read reports the absence
Read(t, s) ==
  CASE IsFixedP(t) -> IF Disc(t) /\ Denil(t.g, s[1]) THEN <<>> ELSE s
    [] OTHER -> IF Len(s) > 0 THEN s
                ELSE IF Disc(t) THEN <<>> ELSE <<Substitute(t.g)>>

----------------------------------------------------------------------------
(* Initial contents                                                        *)

InitOf(t) == IF IsFixedP(t) THEN <<t.init>> ELSE <<>>
InitState(cfg) ==
  [f \in 1..NF(cfg) |-> InitOf(cfg[RawToken(cfg, f)])]

----------------------------------------------------------------------------
(* Modifications of a single field; they give the new contents of it       *)

\* does the write store a value, or erase the field?
Stores(t, v) == Disc(t) \/ ~Empty(t.g, v)

SetField(t, s, v) ==
  CASE IsFixedP(t) -> <<v>>
    [] OTHER -> IF Stores(t, v) THEN <<v>> ELSE <<>>

\* erasing a preplaced fixed-size field resets it to its null or zero
EraseField(t, s) ==
  CASE IsFixedP(t) -> <<DefaultInit(t.g, t.d)>>
    [] OTHER -> <<>>

\* what an erasure reports: 1 if there was something to erase
EraseCount(t, s) == IF Present(t, s) THEN 1 ELSE 0

RemoveAt(s, n) == [i \in 1..(Len(s) - 1) |-> IF i < n THEN s[i] ELSE s[i + 1]]
InsertAt(s, n, v) ==
  [i \in 1..(Len(s) + 1) |-> IF i < n THEN s[i] ELSE IF i = n THEN v ELSE s[i - 1]]
RemoveRange(s, a, b) ==     \* drops items a+1 .. b
  SubSeq(s, 1, a) \o SubSeq(s, b + 1, Len(s))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

\* s2 is s with v inserted somewhere; order of the others is kept
IsInsertion(s, v, s2) ==
  /\ Len(s2) = Len(s) + 1
  /\ \E n \in 1..Len(s2) : s2[n] = v /\ RemoveAt(s2, n) = s

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(s, s2) ==
  /\ Len(s) = Len(s2)
  /\ \/ s = s2
     \/ \A i \in 1..Len(s) : Count(s, s[i]) = Count(s2, s[i])
=============================================================================
