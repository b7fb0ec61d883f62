------------------------------ MODULE NumTrace ------------------------------
(***************************************************************************)
(* Recorded numeric writes and reads against exact numbers.  An event:     *)
(*   src, in      type and bytes of the given number                       *)
(*   how          way of writing: number, integer, unsigned, float,        *)
(*                int128, uint128, bool, enum, or a type itself            *)
(*   g            genus of the field                                       *)
(*   pre, post    contents before and after: <<>> or <<bytes>>             *)
(*   r            outcome                                                  *)
(*   rd           reads after it: <<way, outcome, type, bytes>>            *)
(***************************************************************************)
EXTENDS Numbers, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

IntGenera == {4, 5, 6, 7, 8, 9, 12, 13}
SignedG == {4, 6, 8, 12}
UnsignedG == {5, 7, 9, 13}
FloatG == {10, 14}
BIN128 == 18
Width(g) == CASE g \in {4, 5} -> 8 [] g \in {6, 7} -> 16 [] g \in {8, 9, 10} -> 32
              [] g \in {12, 13, 14} -> 64 [] g = 18 -> 128

\* number kept by a field of genus g
Decode(g, b) ==
  CASE g \in SignedG -> FromBits(BitsOf(b), Width(g), TRUE)
    [] g \in UnsignedG -> FromBits(BitsOf(b), Width(g), FALSE)
    [] g = 10 -> FromFloat(BitsOf(b), 23, 8)
    [] g = 14 -> FromFloat(BitsOf(b), 52, 11)
\* number of a C++ type
Given(ty, b) ==
  CASE ty \in {"i8", "i16", "i32", "i64", "i128"} -> FromBits(BitsOf(b), 8 * Len(b), TRUE)
    [] ty \in {"u8", "u16", "u32", "u64", "u128"} -> FromBits(BitsOf(b), 8 * Len(b), FALSE)
    [] ty = "f32" -> FromFloat(BitsOf(b), 23, 8)
    [] ty = "f64" -> FromFloat(BitsOf(b), 52, 11)

IsFloatTy(ty) == ty \in {"f32", "f64"}

\* an absent value of these fields is read as zero
Kept(g, c) == IF c = <<>> THEN Zero ELSE Decode(g, c[1])

\* which genera may be written in the given way
Target(how) ==
  CASE how = "number" -> IntGenera \cup FloatG
    [] how = "integer" -> SignedG
    [] how = "unsigned" -> UnsignedG
    [] how = "float" -> FloatG
    [] how = "int128" -> SignedG \cup {BIN128}
    [] how = "uint128" -> UnsignedG \cup {BIN128}
    [] how = "i8" -> {4} [] how = "u8" -> {5} [] how = "i16" -> {6} [] how = "u16" -> {7}
    [] how = "i32" -> {8} [] how = "u32" -> {9} [] how = "i64" -> {12} [] how = "u64" -> {13}
    [] how = "f32" -> {10} [] how = "f64" -> {14}
    [] how = "bool" -> {4} [] how = "enum" -> {6}

MinOf(g) == IF g \in SignedG THEN MinSigned(Width(g)) ELSE Zero
MaxOf(g) == IF g \in SignedG THEN MaxSigned(Width(g)) ELSE MaxUnsigned(Width(g))
SafeMax(g) == Num(FALSE, 0..(IF g = 10 THEN 20 ELSE 52))      \* 2^21-1, 2^53-1
FloatMax32 == Num(FALSE, 104..127)

InRange(g, n) == Leq(MinOf(g), n) /\ Leq(n, MaxOf(g))
Neg(n) == Num(~n.neg, n.ones)

\* the number which has to be kept once the write succeeds
Result(ty, g, n) ==
  CASE g \in IntGenera -> Trunc(n)
    [] g = 10 -> IF IsFloatTy(ty) THEN Nearest(n, 24, -149) ELSE n
    [] g = 14 -> n

\* the write has to succeed
Must(ty, g, n) ==
  CASE g \in IntGenera /\ ~IsFloatTy(ty) -> InRange(g, n)
    [] g \in SignedG -> Leq(MinSignedPlus1(Width(g)), n) /\ Leq(n, MaxOf(g))
    [] g \in UnsignedG -> InRange(g, n)
    [] g \in FloatG /\ ~IsFloatTy(ty) -> Leq(Neg(SafeMax(g)), n) /\ Leq(n, SafeMax(g))
    [] g = 10 -> Leq(Neg(FloatMax32), n) /\ Leq(n, FloatMax32)
    [] g = 14 -> TRUE

\* success is allowed at all
May(ty, g, n) ==
  CASE g \in IntGenera -> InRange(g, Trunc(n))
    [] g = 10 /\ ~IsFloatTy(ty) -> Nearest(n, 24, -149) = n
    [] g = 10 -> Leq(Neg(FloatMax32), Nearest(n, 24, -149)) /\ Leq(Nearest(n, 24, -149), FloatMax32)
    [] g = 14 -> Nearest(n, 53, -1074) = n

\* contents never change on a failure
Same(g, a, b) == a = b

WriteOK(e) ==
  LET g == e.g  n == Given(e.src, e["in"]) IN
  IF g \notin Target(e.how) THEN e.r \in {"type", "range"} /\ Same(g, e.pre, e.post)
  ELSE IF g = BIN128 THEN /\ e.r = "ok"
                          \* zero may be kept as absence, where both are the same
                          /\ IF e.post = <<>> THEN BitsOf(e["in"]) = {} ELSE e.post = <<e["in"]>>
  ELSE IF e.how = "bool" THEN e.r = "ok" /\ Kept(g, e.post) = Num(FALSE, IF n.ones = {} THEN {} ELSE {0})
  ELSE IF e.r = "ok" THEN /\ May(e.src, g, n)
                          /\ Kept(g, e.post) = Result(e.src, g, n)
  ELSE /\ e.r = "range"
       /\ ~Must(e.src, g, n)
       /\ Same(g, e.pre, e.post)

\* reads: <<way, outcome, type, bytes>>
ReadTarget(way) ==
  CASE way = "integer" -> SignedG
    [] way = "unsigned" -> UnsignedG
    [] way = "float" -> FloatG
    [] way = "double" -> IntGenera \cup FloatG
    [] way = "int128" -> SignedG \cup {BIN128}
    [] way = "uint128" -> UnsignedG \cup {BIN128}
    [] way = "bool" -> {4}
    [] way = "enum" -> {6}
    [] OTHER -> Target(way)

ReadOK(g, c, x) ==
  LET way == x[1] IN
  IF g \notin ReadTarget(way) THEN x[2] = "type"
  ELSE IF g = BIN128 THEN x[2] = "ok" /\ (c # <<>> => x[4] = c[1])
  ELSE LET n == Kept(g, c) IN
    IF x[2] = "ok" THEN
      IF way = "bool" THEN (x[4] = <<1>>) = (n.ones # {})
      ELSE Given(x[3], x[4]) = n
    ELSE /\ x[2] = "range"
         /\ way = "double"
         /\ ~(Leq(Neg(SafeMax(14)), n) /\ Leq(n, SafeMax(14)))

C12(e) == WriteOK(e) /\ \A k \in 1..Len(e.rd) : ReadOK(e.g, e.post, e.rd[k])

Init == i = 0 /\ bad = {}
Step ==
  /\ i < Len(Trace)
  /\ bad' = IF "C12" \in Props /\ ~C12(Trace[i + 1]) THEN {"C12"} ELSE {}
  /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
