------------------------------- MODULE Nested -------------------------------
(***************************************************************************)
(* Tuples within tuples.  A tuple is <<v, n, a, p, c>>: a number, a text   *)
(* of n letters, a nested tuple in a loose field, one in a preplaced field *)
(* (<<>> - there is none) and a collection of nested tuples.  What is put  *)
(* into a field is a copy: it doesn't follow its origin.  st is the        *)
(* sequence of tuples at hand.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start == <<1, 0, <<>>, <<>>, <<>>>>

\* all results of an operation when it succeeds; order inside of collections
\* isn't preserved by sorting, hence a set
Insertions(c, x) == {SubSeq(c, 1, k) \o <<x>> \o SubSeq(c, k + 1, Len(c)) : k \in 0..Len(c)}
Count(c, x) == Cardinality({k \in 1..Len(c) : c[k] = x})
SameBag(c, d) == Len(c) = Len(d) /\ \A k \in 1..Len(c) : Count(c, c[k]) = Count(d, c[k])

\* is t2 what is to be seen in tuple a of st after the operation?
Result(st, o, a, b, x, t2) ==
  LET t == st[a] IN
  CASE o = "setv" -> t2 = [t EXCEPT ![1] = x]
    [] o = "fill" -> t2 = [t EXCEPT ![2] = x]
    [] o = "puta" -> t2 = [t EXCEPT ![3] = st[b]]
    [] o = "putp" -> t2 = [t EXCEPT ![4] = st[b]]
    [] o = "insc" -> /\ SubSeq(t2, 1, 4) = SubSeq(t, 1, 4)
                     /\ t2[5] \in Insertions(t[5], st[b])
    [] o = "eraa" -> t2 = [t EXCEPT ![3] = <<>>]
    [] o = "erap" -> t2 = [t EXCEPT ![4] = <<>>]
    [] o = "erc1" -> t2 = [t EXCEPT ![5] = IF t[5] = <<>> THEN <<>> ELSE Tail(t[5])]
    [] o \in {"cmp", "junk"} -> t2 = t
    [] o = "opt" -> SubSeq(t2, 1, 4) = SubSeq(t, 1, 4) /\ SameBag(t[5], t2[5])
    [] o = "rst" -> t2 = [Start EXCEPT ![1] = x]
    [] o = "ext" -> t2 = st[b][3]
=============================================================================
