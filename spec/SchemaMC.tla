------------------------------ MODULE SchemaMC ------------------------------
(* All the short sequences of definitions in a small world: the dictionary  *)
(* is one-to-one, fields don't overlap, neighbourhood agrees with the       *)
(* layout.  With Emit each complete history is printed to be replayed.      *)
EXTENDS Schema, TLC
CONSTANTS Depth, Emit
VARIABLES sch, hist

Names == {<<>>, <<65>>, <<65, 0>>}
Gs == {4, 7, 8, 0, 12}
Tok(k, g, x, c, d) == [k |-> k, g |-> g, x |-> x, c |-> c, d |-> d, s |-> 0, z |-> IF k = 1 THEN PlaceBytes(g) ELSE 0]
Req(op, n, t, ren) == [op |-> op, n |-> n, t |-> t, ren |-> ren, v |-> <<>>]
Requests ==
  {Req("pre", n, Tok(1, g, 0, 0, 1), 0) : n \in Names, g \in {4, 7, 12, 0, HOLE}}
  \cup {Req("loose", n, Tok(0, g, 0, 1, 0), 0) : n \in Names, g \in {7, 0}}
  \cup {Req("import", n, Tok(1, g, x, 0, 0), 0) : n \in {<<65>>}, g \in {7, 8}, x \in {0, 1, 3, 5}}
  \cup {Req("import", n, Tok(1, g, x, 0, 0), 1) : n \in {<<65, 0>>}, g \in {8}, x \in {1}}
  \cup {Req("import", n, Tok(0, g, x, 0, 1), 0) : n \in {<<>>}, g \in {7}, x \in {0, 1, 1023}}

Init == sch = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E q \in Requests : sch' = After(sch, q) /\ hist' = Append(hist, q)
Spec == Init /\ [][Next]_<<sch, hist>>

N(s) == Len(s)
Unique == \A i, j \in 1..N(sch) : i # j => sch[i].n # sch[j].n /\ ~Same(sch[i].t, sch[j].t)
Disjoint == \A i, j \in 1..N(sch) : i # j /\ sch[i].t.k = 1 /\ sch[j].t.k = 1 => ~Overlap(sch[i].t, sch[j].t)
OneToOne == \A x \in Range(sch) : ByName(sch, x.n) = {x} /\ ByToken(sch, x.t) = {x}
\* going forward from the first field visits every one, as does going back
RECURSIVE Forward(_), Back(_)
Forward(x) == {x} \cup UNION {Forward(y) : y \in NextBy(sch, x.t.x)}
Back(x) == {x} \cup UNION {Back(y) : y \in PrevBy(sch, x.t.x)}
Neighbours ==
  Preplaced(sch) # {} =>
  /\ \E x \in Preplaced(sch) : PrevBy(sch, x.t.x) = {} /\ Forward(x) = Preplaced(sch)
  /\ \E x \in PrevBy(sch, ImageBytes(sch)) : Back(x) = Preplaced(sch)
  /\ \A x \in Preplaced(sch) : Cardinality(NextBy(sch, x.t.x)) <= 1
       /\ \A y \in NextBy(sch, x.t.x) : PrevBy(sch, y.t.x) = {x}
\* nothing is lost or moved later
Kept == \A k \in 1..N(sch) : sch[k].t.k = 1 => SubSeq(Image(sch), sch[k].t.x + 1, EndOf(sch[k].t)) = sch[k].v
Print_ == Emit /\ Len(hist) = Depth =>
  PrintT("HIST#" \o ToString([k \in 1..Depth |-> <<hist[k].op, hist[k].n, hist[k].t.k, hist[k].t.g, hist[k].t.x, hist[k].t.c, hist[k].t.d, hist[k].ren>>]))
=============================================================================
