------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Field types ("genera") of Fast Positive Tuples and their values.        *)
(*                                                                         *)
(* A value is the sequence of its bytes.  A long value is represented by   *)
(* <<-1, length, digest, digest, digest>> (see Long below); such values    *)
(* are only compared, measured and copied.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TEXT == 0   VARBIN == 1   NESTED == 2   PROPERTY == 3   HOLE == 31
Stretchy == 0..3
InPlaced == 4..7                  \* the value lives in the descriptor
Signed   == {4, 6, 8, 12}
Unsigned == {5, 7, 9, 13}
Floats   == {10, 14}
AllOnesNil == {10, 14, 15}        \* designated null is all ones: f32 f64 d64
Datetime == {11, 16}
DECIMAL == 15
DecimalZero == <<0, 0, 0, 0, 0, 0, 192, 49>>   \* the decimal zero without a fraction

\* size of a fixed-size value in bytes
FixedBytes(g) ==
  CASE g \in {4, 5} -> 1
    [] g \in {6, 7} -> 2
    [] g \in {8, 9, 10, 11} -> 4
    [] g \in {12, 13, 14, 15, 16, 26, 28} -> 8
    [] g = 17 -> 12
    [] g \in {18, 27, 29} -> 16
    [] g = 19 -> 20
    [] g = 20 -> 24
    [] g = 21 -> 28
    [] g = 22 -> 32
    [] g = 23 -> 40
    [] g = 24 -> 48
    [] g = 25 -> 64
    [] g = 30 -> 17
    [] OTHER -> 0

CeilDiv4(n) == (n + 3) \div 4

\* payload units (of 4 bytes) of a loose field of a fixed-size genus
LooseUnits(g) == IF g \in InPlaced THEN 0 ELSE CeilDiv4(FixedBytes(g))

Long(v) == Len(v) = 5 /\ v[1] = -1
VLen(v) == IF Long(v) THEN v[2] ELSE Len(v)

AllBytes(v, b) == \A i \in 1..Len(v) : v[i] = b

\* units occupied by the value when it is stored as a chunk of payload
Units(g, v) ==
  CASE g = TEXT     -> CeilDiv4(VLen(v) + IF VLen(v) < 254 THEN 1 ELSE 3)
    [] g = VARBIN   -> CeilDiv4(VLen(v)) + 1
    [] g = NESTED   -> CeilDiv4(VLen(v))
    [] g = PROPERTY -> CeilDiv4(VLen(v) - 1 + 2)
    [] OTHER        -> LooseUnits(g)

\* the largest number of bytes a stretchy value may have
MaxTextBytes == 131325
MaxVarbinBytes == 65534 * 4
MaxPropertyBytes == 255          \* without the identifier

TooLong(g, len) ==
  \/ g = TEXT /\ len > MaxTextBytes
  \/ g = VARBIN /\ len > MaxVarbinBytes
  \/ g = PROPERTY /\ len > MaxPropertyBytes

\* the natural "nothing" of a type: empty string, zero...
Empty(g, v) ==
  CASE g \in {TEXT, VARBIN} -> VLen(v) = 0
    [] g = PROPERTY -> v = <<0>>
    [] g = NESTED -> VLen(v) <= 4
    [] g = DECIMAL -> AllBytes(v, 0) \/ v = DecimalZero
    [] g \in Floats -> \/ AllBytes(v, 0)
                       \/ /\ AllBytes(SubSeq(v, 1, Len(v) - 1), 0)
                          /\ v[Len(v)] = 128                \* negative zero
    [] OTHER -> ~Long(v) /\ AllBytes(v, 0)

\* designated null of a preplaced fixed-size field ("DENIL")
Denil(g, v) ==
  CASE g \in Signed -> /\ AllBytes(SubSeq(v, 1, Len(v) - 1), 0)
                       /\ v[Len(v)] = 128
    [] g \in AllOnesNil -> AllBytes(v, 255)
    [] OTHER -> ~Long(v) /\ AllBytes(v, 0)

ZeroOf(g) == [i \in 1..FixedBytes(g) |-> 0]
DenilOf(g) ==
  CASE g \in Signed -> [i \in 1..FixedBytes(g) |-> IF i = FixedBytes(g) THEN 128 ELSE 0]
    [] g \in AllOnesNil -> [i \in 1..FixedBytes(g) |-> 255]
    [] OTHER -> ZeroOf(g)

\* what a read of an absent field substitutes when null is not discernible
Substitute(g) ==
  CASE g \in {TEXT, VARBIN, NESTED} -> <<>>
    [] g = PROPERTY -> <<0>>
    [] g = DECIMAL -> DecimalZero
    [] OTHER -> ZeroOf(g)

\* the initial contents of a preplaced fixed-size field without an explicit
\* initial value
DefaultInit(g, d) == IF d = 1 THEN DenilOf(g) ELSE ZeroOf(g)
=============================================================================
