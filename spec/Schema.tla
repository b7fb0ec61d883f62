------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The dictionary of fields.  A definition is a record                     *)
(*   n  name (a sequence of bytes)                                         *)
(*   t  token (see Tokens), of a preplaced field with its size in bytes z  *)
(*   v  initial contents of a preplaced field                              *)
(* and a schema is the sequence of definitions in the order they were made *)
(***************************************************************************)
EXTENDS Tokens, SequencesExt

MaxName == 42
LooseEnd == FirstInlay

Preplaced(sch) == {x \in Range(sch) : x.t.k = 1}
LooseDefs(sch) == {x \in Range(sch) : x.t.k = 0}
EndOf(t) == t.x + t.z

Greatest(sch, floor, P(_), V(_)) ==
  FoldLeft(LAMBDA a, x : IF P(x) /\ V(x) > a THEN V(x) ELSE a, floor, sch)

ImageBytes(sch) == Greatest(sch, 0, LAMBDA x : x.t.k = 1, LAMBDA x : EndOf(x.t))

\* a field is aligned by its size, but not more than by a unit
AlignOf(g) == IF PlaceBytes(g) > 4 THEN 4 ELSE PlaceBytes(g)
AlignUp(n, a) == ((n + a - 1) \div a) * a

Overlap(a, b) == a.x < EndOf(b) /\ b.x < EndOf(a)

NextOffset(sch, g) == AlignUp(ImageBytes(sch), AlignOf(g))
NextId(sch, g) == Greatest(sch, -1, LAMBDA x : x.t.k = 0 /\ x.t.g = g, LAMBDA x : x.t.x) + 1

Pad(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
\* contents of a new field: the given ones, or null
InitialOf(t, v) ==
  IF v # <<>> THEN Pad(v, t.z)
  ELSE IF t.g \in Stretchy THEN Pad(<<>>, t.z)
  ELSE Pad(DefaultInit(t.g, t.d), t.z)

\* A request q of a definition:
\*   op  "pre" "loose" "import"
\*   n   name        v  initial value or <<>>
\*   t   token: for import - the imported one, otherwise x is ignored
\*   ren import only: the place or identifier is to be chosen anew
Fresh(q) == q.op # "import" \/ q.ren = 1
TokenOf(sch, q) ==
  IF ~Fresh(q) THEN q.t
  ELSE IF q.t.k = 1
  THEN [q.t EXCEPT !.x = NextOffset(sch, q.t.g), !.z = PlaceBytes(q.t.g)]
  ELSE [q.t EXCEPT !.x = NextId(sch, q.t.g)]

BadType(q) == q.t.g >= HOLE
TooFar(sch, q) == IF ~Fresh(q) THEN FALSE
                  ELSE IF q.t.k = 1 THEN NextOffset(sch, q.t.g) > MaxOffset
                  ELSE NextId(sch, q.t.g) >= LooseEnd
Clash(sch, q) ==
  LET t == TokenOf(sch, q) IN
  \/ \E x \in Range(sch) : x.n = q.n \/ Same(x.t, t)
  \/ t.k = 1 /\ \E x \in Preplaced(sch) : Overlap(x.t, t)

\* reasons to refuse; the one which is reported may be any of them
Refusals(sch, q) ==
  IF q.op = "void" \/ BadType(q) THEN {"argument"}   \* void: an invalid token
  ELSE (IF Len(q.n) > MaxName THEN {"argument"} ELSE {})
       \cup (IF TooFar(sch, q) THEN {"schemadef"} ELSE IF Clash(sch, q) THEN {"schemadef"} ELSE {})

After(sch, q) ==
  IF Refusals(sch, q) # {} THEN sch
  ELSE LET t == TokenOf(sch, q) IN
       Append(sch, [n |-> q.n, t |-> t, v |-> IF t.k = 1 THEN InitialOf(t, q.v) ELSE <<>>])

-----------------------------------------------------------------------------
\* lookups give the set of at most one definition
ByName(sch, n) == {x \in Range(sch) : x.n = n}
ByToken(sch, t) == {x \in Range(sch) : Same(x.t, t)}
Enforced(o, v) == CASE o = 0 -> v [] o = 1 -> 0 [] o = 2 -> 1
WithOptions(t, d, s) == [t EXCEPT !.d = Enforced(d, t.d), !.s = Enforced(s, t.s)]
ByOffset(sch, o) == {x \in Preplaced(sch) : x.t.x = o}
NextBy(sch, o) ==
  LET m == -Greatest(sch, -100000, LAMBDA x : x.t.k = 1 /\ x.t.x > o, LAMBDA x : -x.t.x) IN
  IF o < 0 \/ o >= ImageBytes(sch) THEN {} ELSE ByOffset(sch, m)
PrevBy(sch, o) ==
  LET m == Greatest(sch, -1, LAMBDA x : x.t.k = 1 /\ x.t.x < o, LAMBDA x : x.t.x) IN
  IF o <= 0 \/ o > ImageBytes(sch) THEN {} ELSE ByOffset(sch, m)

ImageByte(sch, o) ==
  LET P == {x \in Preplaced(sch) : x.t.x <= o /\ o < EndOf(x.t)} IN
  IF P = {} THEN 0 ELSE LET x == CHOOSE y \in P : TRUE IN x.v[o - x.t.x + 1]
Image(sch) == [k \in 1..ImageBytes(sch) |-> ImageByte(sch, k - 1)]
=============================================================================
