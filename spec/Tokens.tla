------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Field tokens.  A token is made of                                       *)
(*   k  1 preplaced, 0 loose        g  type                                *)
(*   x  offset or identifier        c  collection (loose only)             *)
(*   d  null is discernible         s  saturated                           *)
(***************************************************************************)
EXTENDS Values

MaxOffset == 16381
MaxId == 2047
FirstInlay == 1024

Allowed(t) == IF t.k = 1 THEN t.g <= HOLE /\ t.x >= 0 /\ t.x <= MaxOffset
              ELSE t.g < HOLE /\ t.x >= 0 /\ t.x <= MaxId

\* what the options don't change: which field it is
Same(a, b) == a.k = b.k /\ a.g = b.g /\ a.x = b.x
Equal(a, b) == Same(a, b) /\ a.c = b.c /\ a.d = b.d /\ a.s = b.s

\* preplaced fields go first, by their places, then loose ones by type and
\* identifier
Before(a, b) ==
  IF a.k # b.k THEN a.k = 1
  ELSE IF a.k = 1 THEN a.x < b.x \/ (a.x = b.x /\ a.g < b.g)
  ELSE a.g < b.g \/ (a.g = b.g /\ a.x < b.x)

PlaceBytes(g) == IF g \in Stretchy THEN 4
                 ELSE IF g \in InPlaced THEN FixedBytes(g) ELSE 4 * LooseUnits(g)

Integers_ == Signed \cup Unsigned
AnyFloat == Floats \cup {DECIMAL}

Bool(p) == IF p THEN 1 ELSE 0
\* what the token tells about itself
Attributes(t) ==
  [valid |-> 1, type |-> t.g, pre |-> t.k, loose |-> 1 - t.k,
   coll |-> t.c, inlay |-> Bool(t.k = 0 /\ t.x >= FirstInlay),
   disc |-> t.d, sat |-> t.s, range |-> 1 - t.s,
   stretchy |-> Bool(t.g \in Stretchy), bool |-> Bool(t.g = 4), enum |-> Bool(t.g = 6),
   text |-> Bool(t.g = TEXT), number |-> Bool(t.g \in Integers_ \cup AnyFloat),
   integer |-> Bool(t.g \in Integers_), signed |-> Bool(t.g \in Signed \cup AnyFloat),
   unsigned |-> Bool(t.g \in Unsigned), float |-> Bool(t.g \in AnyFloat),
   decimal |-> Bool(t.g = DECIMAL)]
=============================================================================
