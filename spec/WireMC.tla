------------------------------- MODULE WireMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of tiny serialized forms.  Theorems about the    *)
(* definition of the format are checked on each of them; all of them are   *)
(* printed to be fed to the real library (see ImageTrace).                 *)
(***************************************************************************)
EXTENDS Observe, SequencesExt, FiniteSetsExt

CONSTANTS N,        \* units of the image
          PU,       \* units of preplaced fields: 0, or 1 for a single text
          Offs,     \* offsets in descriptors
          Genera,   \* genera in descriptors (identifier 0)
          Holes,    \* sizes of released places
          PayLo, PayHi,   \* halves of the payload
          Emit

VARIABLE w, done
vars == <<w, done>>

PP == IF PU = 0 THEN <<>> ELSE <<<<0, TEXT>>>>

DescHi == {2048 * g : g \in Genera} \cup {2048 * HOLE + h : h \in Holes}
Sizes == {N, N - 1, N + 1}
Counts == 0..N
Flags == {0, 2}

Unit(c, u) == IF u <= c THEN Offs \X DescHi ELSE PayLo \X PayHi

\* images of N units, built unit by unit
Init == /\ \E s \in Sizes, c \in Counts, f \in Flags : w = <<s, 8 * c + f>>
        /\ done = (N = 1)
Grow == /\ ~done
        /\ \E x \in Unit(CountOf(w), UnitsOf(w)) : w' = w \o x
        /\ done' = (UnitsOf(w') = N)
Next == Grow
Spec == Init /\ [][Next]_vars

Good == done /\ WellFormed(w, PP, PU)

----------------------------------------------------------------------------
(* Theorems *)

\* bytes of the value of a chunk lie inside of the chunk
ValueEnd(g, p) ==
  CASE g = TEXT -> LET b == Lo(w, p) % 256 IN
         IF b < 254 THEN 4 * p + 1 + b
         ELSE 4 * p + 3 + b + 2 * (Lo(w, p) \div 256 + 256 * (Hi(w, p) % 256))
    [] g = VARBIN -> 4 * p + 4 + 4 * (Lo(w, p) - 1) - ((4 - (Hi(w, p) % 4)) % 4)
    [] g = NESTED -> 4 * p + 4 * Lo(w, p)
    [] g = PROPERTY -> 4 * p + 2 + (Lo(w, p) % 256)
    [] OTHER -> 4 * p + FixedBytes(g)

\* every value of an accepted image lies in its payload, after the preplaced
ReadsInside == Good =>
  /\ \A u \in 1..CountOf(w) :
       LET g == GenusAt(w, u)  p == u + Lo(w, u) IN
       (g \notin InPlaced /\ g # HOLE /\ Lo(w, u) # 0) =>
         /\ p >= Pivot(w) + PU
         /\ ValueEnd(g, p) <= 4 * UnitsOf(w)
         /\ ValueEnd(g, p) >= 4 * p
  /\ \A n \in 1..Len(PP) : SlotOffset(w, PP[n]) # 0 =>
       LET p == SlotUnit(w, PP[n]) + SlotOffset(w, PP[n]) IN
         p >= Pivot(w) + PU /\ ValueEnd(PP[n][2], p) <= 4 * UnitsOf(w)

\* no two values or released places share a unit, none is unaccounted
Partition == Good =>
  LET ch == AllChunks(w, PP)
      at(x) == {n \in 1..Len(ch) : ch[n][1] <= x /\ x < ch[n][1] + ch[n][2]}
  IN \A x \in (Pivot(w) + PU)..(UnitsOf(w) - 1) : Cardinality(at(x)) = 1

\* the size in the header is the size
SizeAgrees == Good => w[1] = N /\ CountOf(w) + 1 + PU <= N

\* space accounting of the format
Balance == Good =>
  LET ch == AllChunks(w, PP) IN
  1 + CountOf(w) + PU + FoldLeft(LAMBDA a, c : a + c[2], 0, ch) = N

Show == (Emit /\ done) => PrintT("IMG#" \o (IF WellFormed(w, PP, PU) THEN "1#" ELSE "0#") \o ToString(w))
=============================================================================
