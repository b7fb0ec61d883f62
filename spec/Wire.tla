-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The serialized form of a tuple: a sequence w of 16-bit little-endian    *)
(* halves, two per unit.                                                   *)
(*                                                                         *)
(*   unit 0        header: <<brutto size in units, count * 8 + flags>>     *)
(*   units 1..cnt  descriptors: <<offset or in-placed value, genus * 2048  *)
(*                 + identifier>>, an offset counts units from the         *)
(*                 descriptor itself and is 0 when there is no payload     *)
(*   the rest      payload: preplaced fields first, then chunks            *)
(*                                                                         *)
(* A released place is a descriptor of genus HOLE whose identifier is its  *)
(* size in units (0 when it has no payload, 2047 when the size is in the   *)
(* first unit of the payload).                                             *)
(***************************************************************************)
EXTENDS Values

FlagPreplaced == 2
MaxUnits == 65534                 \* 262136 bytes

Lo(w, u) == w[2 * u + 1]
Hi(w, u) == w[2 * u + 2]
UnitsOf(w) == Len(w) \div 2
CountOf(w) == w[2] \div 8
FlagsOf(w) == w[2] % 8
Pivot(w) == 1 + CountOf(w)        \* the first unit of the payload
ByteAt(w, b) == IF b % 2 = 0 THEN w[b \div 2 + 1] % 256 ELSE w[b \div 2 + 1] \div 256
Bytes(w, b, n) == [k \in 1..n |-> ByteAt(w, b + k - 1)]

GenusAt(w, u) == Hi(w, u) \div 2048
IdAt(w, u) == Hi(w, u) % 2048

\* number of units of a stretchy value which starts at unit u
StretchyUnits(w, g, u) ==
  CASE g = TEXT -> LET b == Lo(w, u) % 256 IN
         IF b < 254 THEN CeilDiv4(1 + b)
         ELSE CeilDiv4(3 + b + 2 * (Lo(w, u) \div 256 + 256 * (Hi(w, u) % 256)))
    [] g = VARBIN -> Lo(w, u)
    [] g = NESTED -> Lo(w, u)
    [] g = PROPERTY -> CeilDiv4(2 + (Lo(w, u) % 256))

HoleSize(w, u) ==
  IF IdAt(w, u) < 2047 THEN IdAt(w, u)
  ELSE LET p == u + Lo(w, u) IN Lo(w, p) + 65536 * (Hi(w, p) % 32768)

\* is the stretchy value at unit p sound, given that p is inside the payload
StretchySound(w, g, p) ==
  /\ StretchyUnits(w, g, p) >= 1
  /\ g = VARBIN /\ StretchyUnits(w, g, p) = 1 => Hi(w, p) % 4 = 0

InPayload(w, p) == p >= Pivot(w) /\ p < UnitsOf(w)

DescriptorSound(w, u) ==
  LET g == GenusAt(w, u)  o == Lo(w, u)  p == u + Lo(w, u) IN
  CASE g \in InPlaced -> TRUE
    [] g = HOLE ->
         IF IdAt(w, u) = 0 THEN o = 0
         ELSE /\ o > 0 /\ InPayload(w, p)
              /\ IdAt(w, u) = 2047 => HoleSize(w, u) >= 2047
              /\ p + HoleSize(w, u) <= UnitsOf(w)
    [] g \in Stretchy ->
         o = 0 \/ (InPayload(w, p) /\ StretchySound(w, g, p)
                   /\ p + StretchyUnits(w, g, p) <= UnitsOf(w))
    [] OTHER -> o > 0 /\ p >= Pivot(w) /\ p + LooseUnits(g) <= UnitsOf(w)

\* chunk of a descriptor as a set of zero or one <<begin, units>>
ChunkOf(w, u) ==
  LET g == GenusAt(w, u)  o == Lo(w, u)  p == u + Lo(w, u) IN
  CASE g \in InPlaced \/ o = 0 -> <<>>
    [] g = HOLE -> <<p, HoleSize(w, u)>>
    [] g \in Stretchy -> <<p, StretchyUnits(w, g, p)>>
    [] OTHER -> <<p, LooseUnits(g)>>

\* pp: sequence of <<byte offset, genus>> of the stretchy preplaced fields
SlotUnit(w, x) == Pivot(w) + x[1] \div 4
SlotOffset(w, x) == Lo(w, SlotUnit(w, x))
SlotSound(w, x) ==
  LET p == SlotUnit(w, x) + SlotOffset(w, x) IN
  SlotOffset(w, x) = 0 \/
    (InPayload(w, p) /\ StretchySound(w, x[2], p)
     /\ p + StretchyUnits(w, x[2], p) <= UnitsOf(w))
SlotChunk(w, x) ==
  IF SlotOffset(w, x) = 0 THEN <<>>
  ELSE LET p == SlotUnit(w, x) + SlotOffset(w, x)
       IN <<p, StretchyUnits(w, x[2], p)>>

\* the chunks, all of them (references which share a chunk give one twice)
AllChunks(w, pp) ==
  LET d == [u \in 1..CountOf(w) |-> ChunkOf(w, u)]
      s == [n \in 1..Len(pp) |-> SlotChunk(w, pp[n])]
  IN SelectSeq(d \o s, LAMBDA c : c # <<>>)

\* chunks tile the units base..top-1 without gaps and overlaps: their starts
\* are distinct, each starts at base or where another one ends, sizes add up
Tiles(ch, base, top) ==
  LET starts == {ch[n][1] : n \in 1..Len(ch)}
      ends == {ch[n][1] + ch[n][2] : n \in 1..Len(ch)}
  IN /\ Cardinality(starts) = Len(ch)
     /\ starts \subseteq (ends \cup {base})
     /\ ends \subseteq (starts \cup {top})
     /\ IF ch = <<>> THEN base = top ELSE base \in starts /\ top \in ends

HeaderSound(w, pu, schema) ==
  /\ Len(w) >= 2 /\ Len(w) % 2 = 0
  /\ UnitsOf(w) <= MaxUnits
  /\ w[1] = UnitsOf(w)
  /\ Pivot(w) <= UnitsOf(w)
  /\ Pivot(w) + pu <= UnitsOf(w)
  /\ (FlagsOf(w) \div 2) % 2 = (IF pu > 0 THEN 1 ELSE 0)

WellFormed(w, pp, pu) ==
  /\ HeaderSound(w, pu, TRUE)
  /\ \A u \in 1..CountOf(w) : DescriptorSound(w, u)
  /\ \A n \in 1..Len(pp) : SlotSound(w, pp[n])
  /\ Tiles(AllChunks(w, pp), Pivot(w) + pu, UnitsOf(w))

HoleSizes(w) ==
  LET h == SelectSeq([u \in 1..CountOf(w) |-> u], LAMBDA u : GenusAt(w, u) = HOLE)
  IN [n \in 1..Len(h) |-> HoleSize(w, h[n])]

----------------------------------------------------------------------------
(* Values carried by a well-formed tuple; values longer than Limit bytes   *)
(* are given as <<-1, length>>                                             *)

Limit == 64
Clip(w, b, n) == IF n > Limit THEN <<-1, n>> ELSE Bytes(w, b, n)

ValueAt(w, g, p) ==          \* of a chunk which starts at unit p
  CASE g = TEXT -> LET b == Lo(w, p) % 256 IN
         IF b < 254 THEN Clip(w, 4 * p + 1, b)
         ELSE Clip(w, 4 * p + 3, b + 2 * (Lo(w, p) \div 256 + 256 * (Hi(w, p) % 256)))
    [] g = VARBIN -> LET tail == Hi(w, p) % 4 IN
         Clip(w, 4 * p + 4, 4 * (Lo(w, p) - 1) - ((4 - tail) % 4))
    [] g = NESTED -> Clip(w, 4 * p, 4 * Lo(w, p))
    [] g = PROPERTY -> LET n == Lo(w, p) % 256 IN
         IF n + 1 > Limit THEN <<-1, n + 1>>
         ELSE <<Lo(w, p) \div 256>> \o Bytes(w, 4 * p + 2, n)
    [] OTHER -> Bytes(w, 4 * p, FixedBytes(g))

InPlacedValue(w, g, u) ==
  IF FixedBytes(g) = 1 THEN <<Lo(w, u) % 256>>
  ELSE <<Lo(w, u) % 256, Lo(w, u) \div 256>>

\* the value of the field with the descriptor at unit u
LooseValue(w, g, u) ==
  IF g \in InPlaced THEN InPlacedValue(w, g, u)
  ELSE ValueAt(w, g, u + Lo(w, u))

\* all values of loose fields with the given genus and identifier
LooseValues(w, g, id) ==
  LET us == SelectSeq([u \in 1..CountOf(w) |-> u],
                      LAMBDA u : Hi(w, u) = g * 2048 + id)
  IN [n \in 1..Len(us) |-> LooseValue(w, g, us[n])]

PreplacedFixed(w, g, off) == <<Bytes(w, 4 * Pivot(w) + off, FixedBytes(g))>>
PreplacedStretchy(w, g, off) ==
  LET u == Pivot(w) + off \div 4 IN
  IF Lo(w, u) = 0 THEN <<>> ELSE <<ValueAt(w, g, u + Lo(w, u))>>

\* forget digests
Clipped(v) == IF Len(v) = 5 /\ v[1] = -1 THEN <<-1, v[2]>> ELSE v
=============================================================================
