---------------------------- MODULE SchemaTrace ----------------------------
(***************************************************************************)
(* Recorded definitions and lookups against the dictionary of Schema.      *)
(*   new   a new empty schema                                              *)
(*   def   a definition: the request, the outcome r and the token got      *)
(*   get   a token by name, with options     name  a name by token         *)
(*   off   the fields at, after and before of an offset                    *)
(*   loose a field by its descriptor                                       *)
(*   all   all the tokens, sizes, counts and the initial image             *)
(* A token which is not found is recorded as <<>>.                         *)
(***************************************************************************)
EXTENDS Schema, TLC, Json, IOUtils

CONSTANT Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, sch, bad
vars == <<i, sch, bad>>

SameToken(got, t) ==
  /\ DOMAIN got # {}
  /\ \A f \in {"k", "g", "x", "c", "d", "s"} : got[f] = t[f]
  /\ t.k = 1 => got.z = t.z
\* what is found is what is looked for
Found(got, S) == IF S = {} THEN got = <<>> ELSE got # <<>> /\ \E x \in S : SameToken(got, x.t)

DefOK(e) ==
  LET no == Refusals(sch, e.q) IN
  IF no = {} THEN e.r = "ok" /\ SameToken(e.t, TokenOf(sch, e.q)) ELSE e.r \in no

GetOK(e) ==
  LET S == ByName(sch, e.n) IN
  IF S = {} THEN e.r = "nofield" /\ e.nt = <<>>
  ELSE LET t == WithOptions((CHOOSE x \in S : TRUE).t, e.d, e.s) IN
       e.r = "ok" /\ SameToken(e.t, t) /\ SameToken(e.nt, t)

NameOK(e) ==
  LET S == ByToken(sch, e.t) IN
  IF S = {} THEN e.r = "nofield" /\ e.nil = 1
  ELSE e.r = "ok" /\ e.nil = 0 /\ e.n = (CHOOSE x \in S : TRUE).n /\ e.n2 = e.n

AllOK(e) ==
  LET P == Preplaced(sch) IN
  /\ Len(e.ts) = Len(sch)
  /\ \A k \in 1..Len(e.ts) : \E x \in Range(sch) : SameToken(e.ts[k], x.t)
  /\ \A k \in 2..Len(e.ts) : Before(e.ts[k - 1], e.ts[k])
  /\ e.bytes = ImageBytes(sch) /\ e.units = CeilDiv4(ImageBytes(sch))
  /\ e.np = Cardinality(P)
  /\ e.ns = Cardinality({x \in P : x.t.g \in Stretchy})
  /\ e.have = (IF P = {} THEN 0 ELSE 1)
  /\ IF "image" \in DOMAIN e THEN e.image = Image(sch)
     ELSE \A k \in 1..Len(e.slices) :
            LET S == ByOffset(sch, e.slices[k].x) IN \E x \in S : x.v = e.slices[k].v

C13(e) ==
  CASE e.e = "new" -> TRUE
    [] e.e = "def" -> DefOK(e)
    [] e.e = "get" -> GetOK(e)
    [] e.e = "name" -> NameOK(e)
    [] e.e = "off" -> /\ Found(e.by, ByOffset(sch, e.o)) /\ Found(e.next, NextBy(sch, e.o))
                      /\ Found(e.prev, PrevBy(sch, e.o))
    [] e.e = "loose" -> Found(e.by, {x \in LooseDefs(sch) : x.t.g = e.g /\ x.t.x = e.x})
    [] e.e = "all" -> AllOK(e)

Judge(e) == {p \in Props : ~C13(e)}

Init == i = 0 /\ bad = {} /\ sch = <<>>
Step == LET e == Trace[i + 1] IN
        /\ i < Len(Trace)
        /\ bad' = Judge(e)
        /\ sch' = CASE e.e = "new" -> <<>> [] e.e = "def" -> After(sch, e.q) [] OTHER -> sch
        /\ i' = i + 1
Spec == Init /\ [][Step]_vars
NoFailure == bad = {}
Brief == [at |-> i, failed |-> bad]
Complete == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
