----------------------------- MODULE TupleTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded step of the real library must be a     *)
(* step of the specification.  `Props' selects the properties whose        *)
(* obligations are enforced; st always follows the observed contents, so   *)
(* the obligations of one property do not depend on those of another.      *)
(***************************************************************************)
EXTENDS Observe, Space, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANT Props

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,      \* number of events consumed
          loaded, \* configuration of the next history is loaded
          cfg,    \* tokens of the current history
          st,     \* contents after event i
          bad     \* violated obligations of event i
vars == <<i, loaded, cfg, st, bad>>

----------------------------------------------------------------------------
(* Expected effect of an event on the contents *)

Tok(e) == cfg[e.t]
Fld(e) == cfg[e.t].f
Ok(e) == e.r = "ok"

Modifies == {"set", "ins", "era", "erx", "err", "erc", "upd"}

\* s2 is an admissible new contents of the field named by event e, given old s
Effect(e, s, s2) ==
  LET t == Tok(e) IN
  CASE e.e = "set" -> s2 = SetField(t, s, e.v)
    [] e.e = "ins" -> IF Stores(t, e.v) THEN IsInsertion(s, e.v, s2) ELSE s2 = s
    [] e.e = "era" -> s2 = EraseField(t, s)
    [] e.e = "erc" -> s2 = <<>>
    [] e.e = "erx" -> s2 = IF e.n < Len(s) THEN RemoveAt(s, e.n + 1) ELSE s
    [] e.e = "err" -> s2 = RemoveRange(s, Min(e.n, Len(s)), Min(Max(e.n, e.m), Len(s)))
    [] e.e = "upd" -> s2 = IF e.n >= Len(s) THEN s
                           ELSE IF Stores(t, e.v) THEN [s EXCEPT ![e.n + 1] = e.v]
                           ELSE RemoveAt(s, e.n + 1)
    [] OTHER -> s2 = s

\* number reported by an erasure
Reports(e, s) ==
  LET t == Tok(e) IN
  CASE e.e = "era" -> IF IsColl(t) THEN IF Len(s) > 0 THEN 1 ELSE 0
                      ELSE EraseCount(t, s)
    [] e.e = "erc" -> Len(s)
    [] e.e = "erx" -> IF e.n < Len(s) THEN 1 ELSE 0
    [] e.e = "err" -> Min(Max(e.n, e.m), Len(s)) - Min(e.n, Len(s))
    [] e.e = "upd" -> IF e.n < Len(s) THEN 1 ELSE 0
    [] OTHER -> 0

\* may this event permute the items of collections?
Permutes(e) ==
  \/ e.e = "opt" /\ e.n # 1
  \/ e.e = "rel" /\ e.n = 3

SameContents(e, s, s2) ==
  \A f \in DOMAIN s :
    IF Permutes(e) /\ IsColl(cfg[RawToken(cfg, f)]) THEN SameBag(s[f], s2[f])
    ELSE s2[f] = s[f]

Untouched(e, s, s2) == \A f \in DOMAIN s : f # Fld(e) => s2[f] = s[f]

----------------------------------------------------------------------------
(* Space: when an operation has to succeed (pre: record before the event)  *)

FreeSlot(pre) == Slot(pre.s.h, pre.hl)
New(pre, u) == FitsNew(pre.s.h, pre.s.t, pre.hl, u)
Resize(pre, have, u) == FitsResize(pre.s.h, pre.s.t, pre.hl, have, u)
Data(pre, u) == FitsData(pre.s.h, pre.s.t, pre.hl, u)

MustSucceed(pre, e, s) ==
  LET t == Tok(e) IN
  CASE e.e \in {"erx", "err", "erc"} -> TRUE
    [] e.e = "era" -> IsStretchyP(t) => (s = <<>> \/ FreeSlot(pre))
    [] e.e = "set" /\ IsFixedP(t) -> TRUE
    [] e.e = "set" /\ ~Stores(t, e.v) ->
         t.k = "L" \/ s = <<>> \/ FreeSlot(pre)
    [] e.e = "set" ->
         IF s = <<>> THEN IF t.k = "P" THEN Data(pre, Units(t.g, e.v))
                          ELSE New(pre, Units(t.g, e.v))
         ELSE Resize(pre, Units(t.g, s[1]), Units(t.g, e.v))
    [] e.e = "ins" -> ~Stores(t, e.v) \/ New(pre, Units(t.g, e.v))
    [] e.e = "upd" -> \/ e.n >= Len(s)
                      \/ ~Stores(t, e.v)
                      \/ Resize(pre, Units(t.g, s[e.n + 1]), Units(t.g, e.v))
    [] OTHER -> TRUE

\* a growing tuple has to succeed as long as it is far from the limits of the
\* format: 262136 bytes and 8191 fields
MustGrow(pre, e) ==
  /\ pre.s.nb + 4 * Units(Tok(e).g, e.v) < 240000
  /\ pre.s.n < 8000

Managed(e) == e.mg = 1

MisuseOutcome(e) ==
  LET t == Tok(e) IN
  CASE e.n = 0 -> {"type"}
    [] e.n = 1 -> IF IsColl(t) THEN {"unallowed"} ELSE {"required"}
    [] e.n = 2 -> IF IsColl(t) THEN {"unallowed"} ELSE {"required"}
    [] e.n = 3 -> IF TooLong(t.g, e.m) THEN {"long"} ELSE {"space", "large"}
    [] e.n = 4 -> IF IsColl(t) /\ st[t.f] = <<>> THEN {"ok"}
                  ELSE {"type"}
    [] OTHER -> {}

SpaceErrors == {"space", "large"}

OutcomeOK(pre, e) ==
  CASE e.e \in {"new", "rst", "opt", "tak", "rel"} -> Ok(e)
    [] e.e = "mis" -> e.r \in MisuseOutcome(e)
    [] e.e \in Modifies ->
       /\ \/ Ok(e)
          \/ /\ e.r \in SpaceErrors \cup (IF Managed(e) THEN {"overflow"} ELSE {})
             /\ ~MustSucceed(pre, e, st[Fld(e)])
             /\ (Managed(e) /\ e.e \in {"set", "ins"} /\ Stores(Tok(e), e.v)) => ~MustGrow(pre, e)
    [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Space accounting *)

LiveUnits(c, s) ==
  FoldSet(LAMBDA f, acc : acc + LET t == c[RawToken(c, f)] IN
      IF IsFixedP(t) THEN 0
      ELSE FoldLeft(LAMBDA a, v : a + Units(t.g, v), 0, s[f]),
    0, DOMAIN s)
LiveLoose(c, s) ==
  FoldSet(LAMBDA f, acc : acc +
      IF c[RawToken(c, f)].k = "P" THEN 0 ELSE Len(s[f]),
    0, DOMAIN s)
HoleUnits(e) == FoldLeft(LAMBDA a, x : a + x, 0, e.hl)

Accounting(c, s, e, pu) ==
  LET x == e.s IN
  /\ x.n = LiveLoose(c, s)
  /\ x.i = x.n + Len(e.hl)
  /\ x.j = Len(e.hl) + HoleUnits(e)
  /\ x.jb = 4 * x.j
  /\ x.pb = 4 * (pu + LiveUnits(c, s) + HoleUnits(e))
  /\ x.bb = 4 * (1 + x.i) + x.pb
  /\ x.nb = x.bb - x.jb
  /\ x.tb = 4 * x.t
  /\ x.cap = 4 * (x.h + x.t) + x.bb - 4   \* the header does not count
  /\ x.em = (IF x.n = 0 /\ x.pb = 0 THEN 1 ELSE 0)

Compacts(e) == e.e = "opt" /\ e.n \in {0, 1, 4, 6}
SortsOnly(e) == e.e = "opt" /\ e.n \in {2, 3}

----------------------------------------------------------------------------
(* Obligations per property *)

Stats(e) == [x \in (DOMAIN e.s) \ {"ok"} |-> e.s[x]]

ContentsFollow(e, s2) ==
  CASE e.e \in {"new", "rst"} /\ Ok(e) -> s2 = InitState(cfg)
    [] e.e \in Modifies /\ Ok(e) ->
         Effect(e, st[Fld(e)], s2[Fld(e)]) /\ Untouched(e, st, s2)
    [] OTHER -> SameContents(e, st, s2)

C01(e, s2) == ContentsFollow(e, s2) /\ ShowsValues(cfg, s2, e.o)

C02(pre, e, s2) ==
  (~Ok(e) \/ e.e = "mis") =>
    /\ \/ e.e = "new"
       \/ s2 = st /\ (Managed(e) \/ (Stats(e) = Stats(pre) /\ e.hl = pre.hl))
    /\ e.s.ok = 1

C03(pre, e) == OutcomeOK(pre, e)

C04(e) ==
  /\ e.s.ok = 1
  /\ e.w # <<>> => WellFormed(e.w, PreplacedOf(cfg), e.pu)

C05(pre, e, s2) ==
  /\ Accounting(cfg, s2, e, e.pu)
  /\ Compacts(e) => e.s.j = 0
  /\ (e.e \notin {"new", "rel"} /\ ~Managed(e)) => e.s.cap = pre.s.cap

C06(pre, e, s2) ==
  e.e = "opt" =>
    /\ Ok(e)
    /\ SameContents(e, st, s2)
    /\ ShowsAbsence(cfg, s2, e.o)
    /\ e.s.ok = 1
    /\ Compacts(e) => e.s.j = 0
    /\ e.s.nb = pre.s.nb
    /\ e.s.cap = pre.s.cap
    /\ e.s.n = pre.s.n
    \* repeating a maintenance call changes nothing more
    /\ (pre.e = "opt" /\ pre.n = e.n) => (s2 = st /\ Stats(e) = Stats(pre))

C07(pre, e, s2) ==
  CASE e.e = "tak" ->
         /\ Ok(e)
         /\ s2 = st
         /\ Len(e.o2) = Len(cfg)
         /\ LET s3 == Observed(cfg, e.o2) IN
            /\ \A f \in DOMAIN st :
                 IF e.n = 3 /\ IsColl(cfg[RawToken(cfg, f)]) THEN SameBag(st[f], s3[f])
                 ELSE s3[f] = st[f]
            /\ ShowsValues(cfg, s3, e.o2)
            /\ ShowsAbsence(cfg, s3, e.o2)
         /\ (e.n \in {0, 1, 2, 4} /\ pre.w # <<>>) => e.w2 = pre.w
         /\ (e.n = 3 /\ e.w2 # <<>>) => WellFormed(e.w2, PreplacedOf(cfg), e.pu)
    [] e.e = "rel" ->
         /\ Ok(e)
         /\ SameContents(e, st, s2)
         /\ ShowsAbsence(cfg, s2, e.o)
         /\ e.s.ok = 1
         /\ e.w # <<>> => WellFormed(e.w, PreplacedOf(cfg), e.pu)
    [] OTHER ->
         /\ e.w # <<>> =>
              /\ Len(e.w) * 2 = e.s.bb
              /\ Carries(cfg, e.w, s2)

C09(e, s2) ==
  /\ ShowsAbsence(cfg, s2, e.o)
  /\ (e.e \in {"set", "ins", "upd", "era"} /\ Ok(e)) =>
        (Effect(e, st[Fld(e)], s2[Fld(e)])
         /\ (e.e = "era" => e.k = Reports(e, st[Fld(e)])))

C10(pre, e, s2) ==
  /\ \A t \in 1..Len(cfg) : IsColl(cfg[t]) =>
       /\ e.o[t].c = s2[cfg[t].f]
       /\ e.o[t].p = IF s2[cfg[t].f] = <<>> THEN 0 ELSE 1
  /\ \A f \in DOMAIN st : IsColl(cfg[RawToken(cfg, f)]) =>
       CASE e.e \in Modifies /\ Ok(e) /\ Fld(e) = f -> Effect(e, st[f], s2[f])
         [] e.e \in {"new", "rst"} /\ Ok(e) -> s2[f] = <<>>
         [] Permutes(e) -> SameBag(st[f], s2[f])
         [] OTHER -> s2[f] = st[f]
  /\ (e.e \in Modifies /\ Ok(e) /\ IsColl(Tok(e))) =>
       /\ Untouched(e, st, s2)
       /\ e.k = Reports(e, st[Fld(e)])
       \* with no released places the newest item comes first
       /\ (e.e = "ins" /\ pre.hl = <<>> /\ Stores(Tok(e), e.v)) =>
             s2[Fld(e)] = <<e.v>> \o st[Fld(e)]

\* --- iteration over the whole tuple
LooseFieldOf(c, hi) ==
  LET m == {f \in 1..NF(c) : c[2 * f].k # "P" /\ c[2 * f].g * 2048 + c[2 * f].id = hi}
  IN IF m = {} THEN -1 ELSE CHOOSE f \in m : TRUE
\* oldest first
ExpectLoose(c, w) ==
  [k \in 1..CountOf(w) |-> LET u == CountOf(w) + 1 - k IN
     IF GenusAt(w, u) = HOLE THEN [f |-> 0, v |-> <<>>]
     ELSE [f |-> LooseFieldOf(c, Hi(w, u)), v |-> <<LooseValue(w, GenusAt(w, u), u)>>]]
\* preplaced fields in the order of their places, those which are present
ExpectPreplaced(c, s) ==
  LET ps == {f \in 1..NF(c) : c[2 * f - 1].k = "P" /\ Present(c[2 * f - 1], s[f])}
      srt == SetToSortSeq(ps, LAMBDA a, b : c[2 * a].off < c[2 * b].off)
  IN [k \in 1..Len(srt) |-> [f |-> srt[k], v |-> <<Clipped(s[srt[k]][1])>>]]

Seen(ps) == [k \in 1..Len(ps) |->
  IF ps[k].f = 0 THEN [f |-> 0, v |-> <<>>]
  ELSE [f |-> ps[k].f, v |-> [n \in 1..Len(ps[k].v) |-> Clipped(ps[k].v[n])]]]
NamesRight(ps) == \A k \in 1..Len(ps) : ps[k].f # 0 => ps[k].tf = ps[k].f

C11(e, s2) ==
  ("if" \in DOMAIN e /\ e.w # <<>>) =>
    LET lf == Seen(e.lf)
        whole == ExpectPreplaced(cfg, s2) \o ExpectLoose(cfg, e.w)
    IN /\ lf = ExpectLoose(cfg, e.w)
       /\ Seen(e.lb) = Reverse(lf)
       /\ Seen(e.lj) = lf /\ NamesRight(e.lj) /\ e.lo = 1  \* by jumps
       /\ Seen(e["if"]) = whole
       /\ Seen(e.ib) = Reverse(whole)
       /\ Seen(e.rf) = whole
       /\ Seen(e.rb) = Reverse(whole)
       /\ NamesRight(e.lf) /\ NamesRight(e.lb) /\ NamesRight(e["if"])
       /\ NamesRight(e.ib) /\ NamesRight(e.rf) /\ NamesRight(e.rb)
       \* every present field is visited, exactly as many times as it has values
       /\ \A f \in DOMAIN s2 :
            Cardinality({k \in 1..Len(whole) : whole[k].f = f}) =
              IF cfg[2 * f].k = "P" THEN IF Present(cfg[2 * f - 1], s2[f]) THEN 1 ELSE 0
              ELSE Len(s2[f])

C28(e, s2) ==
  /\ e.s.bb <= e.s.cap + 4
  /\ e.s.ok = 1
  /\ e.w # <<>> => Len(e.w) * 2 = e.s.bb

C14(e, s2) ==
  e.e \in {"new", "rst"} =>
    /\ Ok(e)
    /\ s2 = InitState(cfg)
    /\ ShowsAbsence(cfg, s2, e.o)
    /\ e.s.n = 0 /\ e.s.i = 0 /\ e.s.j = 0 /\ e.hl = <<>>
    /\ e.s.pb = 4 * e.pu
    /\ e.s.bb = 4 * (1 + e.pu)
    /\ 4 * (e.s.h + e.s.t) = e.s.cap + 4 - e.s.bb
    /\ e.s.ok = 1

C17(pre, e, s2) ==
  Managed(e) =>
    /\ e.e # "mis" => OutcomeOK(pre, e)
    /\ ContentsFollow(e, s2)
    /\ ShowsValues(cfg, s2, e.o)
    /\ ShowsAbsence(cfg, s2, e.o)
    /\ e.s.ok = 1
    /\ Accounting(cfg, s2, e, e.pu)
    /\ ~Ok(e) => s2 = st
    \* grows only when needed
    /\ e.s.cap # pre.s.cap =>
         \/ e.e \in {"new", "rel"}
         \/ e.e \in {"set", "ins"} /\ ~MustSucceed(pre, e, st[Fld(e)])

Obl(name, holds) == IF name \in Props /\ ~holds THEN {name} ELSE {}

Failures(pre, e, s2) ==
  Obl("C01", C01(e, s2)) \cup
  Obl("C02", C02(pre, e, s2)) \cup
  Obl("C03", C03(pre, e)) \cup
  Obl("C04", C04(e)) \cup
  Obl("C05", C05(pre, e, s2)) \cup
  Obl("C06", C06(pre, e, s2)) \cup
  Obl("C07", C07(pre, e, s2)) \cup
  Obl("C09", C09(e, s2)) \cup
  Obl("C10", C10(pre, e, s2)) \cup
  Obl("C11", C11(e, s2)) \cup
  Obl("C28", C28(e, s2)) \cup
  Obl("C14", C14(e, s2)) \cup
  Obl("C17", C17(pre, e, s2))

----------------------------------------------------------------------------
Init == /\ i = 0
        /\ loaded = FALSE
        /\ cfg = <<>>
        /\ st = <<>>
        /\ bad = {}

\* a history starts with the definition of its fields
Load ==
  /\ i < Len(Trace)
  /\ Trace[i + 1].e = "new" /\ ~loaded
  /\ cfg' = Trace[i + 1].toks
  /\ st' = InitState(cfg')
  /\ loaded' = TRUE
  /\ bad' = {}
  /\ UNCHANGED i

Step ==
  /\ i < Len(Trace)
  /\ Trace[i + 1].e = "new" => loaded
  /\ LET e == Trace[i + 1]
         pre == IF i = 0 THEN Trace[1] ELSE Trace[i]
     IN /\ st' = Observed(cfg, e.o)
        /\ bad' = Failures(pre, e, st')
  /\ i' = i + 1
  /\ loaded' = FALSE
  /\ UNCHANGED cfg

Next == Load \/ Step
Spec == Init /\ [][Next]_vars

NoFailure == bad = {}
Brief == [at |-> i, event |-> IF i = 0 THEN "-" ELSE Trace[i].e, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
