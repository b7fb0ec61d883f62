----------------------------- MODULE ImageTrace -----------------------------
(***************************************************************************)
(* Verdicts of the library about arbitrary blocks of bytes, and what it    *)
(* shows of the accepted ones, against the definition of the format.       *)
(* Each event is judged on its own; cfg and pu are of the last "cfg".      *)
(***************************************************************************)
EXTENDS Observe, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, cfg, pu, bad
vars == <<i, cfg, pu, bad>>

Sorted(w) == FlagsOf(w) % 2 = 1      \* never set by the library itself

Exact(e) == e.b = 2 * Len(e.w)
Sound(e, pp, n) == Exact(e) /\ WellFormed(e.w, pp, n)

\* the order of the index is a promise of the flag, which is not judged
Judged(e, verdict, pp, n) ==
  IF Sound(e, pp, n) THEN Sorted(e.w) \/ verdict = 1 ELSE verdict = 0

Outcome(verdict, r) == IF verdict = 1 THEN r = "ok" ELSE r \in {"badtuple", "hollow"}

\* loose fields of variable size without a payload: their value is not judged
Bare(w, g, id) ==
  g \in Stretchy /\ \E u \in 1..CountOf(w) : Hi(w, u) = g * 2048 + id /\ Lo(w, u) = 0

\* likewise the unused half of a place of a preplaced variable-size field
Littered(w, t) == IsStretchyP(t) /\ Hi(w, Pivot(w) + t.off \div 4) # 0

\* a text of zero length with a non-empty rest of the unit is a reference into
\* an external pool of strings, which is only sketched in the library
PoolTag(w, p) == Lo(w, p) % 256 = 0 /\ (Lo(w, p) # 0 \/ Hi(w, p) # 0)
Pooled(w, t) ==
  /\ t.g = TEXT
  /\ IF t.k = "P" THEN LET u == Pivot(w) + t.off \div 4 IN
          Lo(w, u) # 0 /\ PoolTag(w, u + Lo(w, u))
     ELSE \E u \in 1..CountOf(w) :
          Hi(w, u) = t.g * 2048 + t.id /\ Lo(w, u) # 0 /\ PoolTag(w, u + Lo(w, u))

Values(w, t) ==
  CASE IsFixedP(t) -> PreplacedFixed(w, t.g, t.off)
    [] IsStretchyP(t) -> PreplacedStretchy(w, t.g, t.off)
    [] OTHER -> LooseValues(w, t.g, t.id)

Same(shown, v) == Clipped(shown) = v

ShowsToken(t, w, o, permuted) ==
  IF (t.k # "P" /\ Bare(w, t.g, t.id)) \/ Littered(w, t) \/ Pooled(w, t) THEN TRUE
  ELSE LET vs == Values(w, t) IN
    CASE IsColl(t) ->
           LET c == [n \in 1..Len(o.c) |-> Clipped(o.c[n])] IN
           IF permuted THEN SameBag(c, vs) ELSE c = vs
      [] Len(vs) <= 1 ->
           LET r == Read(t, vs) IN
           /\ Len(o.v) = Len(r)
           /\ r # <<>> => Clipped(o.v[1]) = r[1]
           /\ o.p = (IF Present(t, vs) THEN 1 ELSE 0)
      [] OTHER -> \* a repeated single field shows one of its values
           /\ o.p = 1
           /\ Len(o.v) = 1
           /\ \E n \in 1..Len(vs) : Clipped(o.v[1]) = vs[n]

Shows(w, o, permuted) ==
  /\ Len(o) = Len(cfg)
  /\ \A t \in 1..Len(cfg) : ShowsToken(cfg[t], w, o[t], permuted)

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

Loaded(e) ==
  LET hs == HoleSizes(e.w) IN
  /\ e.c3 = "ok"
  /\ Shows(e.w, e.o3, FALSE)
  /\ e.s = <<CountOf(e.w) - Len(hs), CountOf(e.w), Len(hs) + Sum(hs), e.b>>
  /\ Shows(e.w, e.o4, TRUE)
  /\ e.s4 = <<CountOf(e.w) - Len(hs), CountOf(e.w) - Len(hs), 0, 1>>

C08(e) ==
  LET pp == PreplacedOf(cfg) IN
  /\ Judged(e, e.v, pp, pu)
  /\ Judged(e, e.vn, <<>>, 0)
  /\ e.vh = (IF e.v = 1 /\ HoleSizes(e.w) = <<>> THEN 1 ELSE 0)
  /\ Outcome(e.v, e.c0) /\ Outcome(e.v, e.c1) /\ Outcome(e.v, e.c2)
  /\ e.v = 1 => /\ e.vv = 1
                /\ Shows(e.w, e.o, FALSE)
                /\ Loaded(e)

Init == i = 0 /\ cfg = <<>> /\ pu = 0 /\ bad = {}
Step ==
  /\ i < Len(Trace)
  /\ LET e == Trace[i + 1] IN
     IF e.e = "cfg" THEN cfg' = e.toks /\ pu' = e.pu /\ bad' = {}
     ELSE /\ bad' = IF "C08" \in Props /\ ~C08(e) THEN {"C08"} ELSE {}
          /\ UNCHANGED <<cfg, pu>>
  /\ i' = i + 1
Spec == Init /\ [][Step]_vars

NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
