------------------------------ MODULE HandlesMC ------------------------------
(***************************************************************************)
(* The way it is done: buffers with counters of references, contents are   *)
(* changed in place when the counter is one.  Checked: every step does for *)
(* the holders of handles what Handles says, a buffer lives exactly while  *)
(* somebody refers to it.  With Emit the transitions are printed for the   *)
(* replay on the real library.                                             *)
(***************************************************************************)
EXTENDS Handles, TLC
CONSTANTS NR, NW, Values_, MaxDepth, Emit, Ops

\* heap: buffer -> [n |-> references, c |-> contents]; free ones have n = 0
Buffers == 1..(NR + NW + 1)
VARIABLES heap, ro, rw
vars == <<heap, ro, rw>>
Nothing == <<0, 0>>                      \* ro handle: buffer and depth
Init == /\ heap = [b \in Buffers |-> [n |-> 0, c |-> <<>>]]
        /\ ro = [i \in 1..NR |-> Nothing] /\ rw = [i \in 1..NW |-> 0]

See(h) == IF h[1] = 0 THEN <<>> ELSE SubSeq(heap[h[1]].c, h[2] + 1, Len(heap[h[1]].c))
Logical == [ro |-> [i \in 1..NR |-> See(ro[i])],
            rw |-> [i \in 1..NW |-> IF rw[i] = 0 THEN <<>> ELSE heap[rw[i]].c]]

FreeOne(h) == CHOOSE b \in Buffers : h[b].n = 0
Take(h, b) == IF b = 0 THEN h ELSE [h EXCEPT ![b].n = @ + 1]
Put(h, b) == IF b = 0 THEN h
             ELSE IF h[b].n = 1 THEN [h EXCEPT ![b] = [n |-> 0, c |-> <<>>]]
             ELSE [h EXCEPT ![b].n = @ - 1]
New(h, c) == [h EXCEPT ![FreeOne(h)] = [n |-> 1, c |-> c]]

\* the new buffer first, then the previous one is given back
PlaceRo(i, c) == /\ heap' = Put(New(heap, c), ro[i][1])
                 /\ ro' = [ro EXCEPT ![i] = <<FreeOne(heap), 0>>] /\ UNCHANGED rw
PlaceRw(i, c) == /\ heap' = Put(New(heap, c), rw[i])
                 /\ rw' = [rw EXCEPT ![i] = FreeOne(heap)] /\ UNCHANGED ro
Share(i, h) == /\ heap' = IF h[1] = ro[i][1] THEN heap ELSE Put(Take(heap, h[1]), ro[i][1])
               /\ ro' = [ro EXCEPT ![i] = h] /\ UNCHANGED rw
Change(i, c) == heap' = [heap EXCEPT ![rw[i]].c = c] /\ UNCHANGED <<ro, rw>>

Do(op) ==
  LET a == op[2]  b == op[3] IN
  CASE op[1] = "new" -> PlaceRw(a, Fresh)
    [] op[1] \in {"write", "fill", "put", "putw", "drop", "reset", "opt"} ->
         Change(a, Apply(op, Logical).st.rw[a])
    [] op[1] \in {"copy", "assign"} -> Share(a, ro[b])
    [] op[1] \in {"movec", "movea"} ->
         heap' = Put(heap, ro[a][1]) /\ ro' = [ro EXCEPT ![a] = ro[b], ![b] = Nothing] /\ UNCHANGED rw
    [] op[1] = "swap" -> ro' = [ro EXCEPT ![a] = ro[b], ![b] = ro[a]] /\ UNCHANGED <<heap, rw>>
    [] op[1] \in {"wmovec", "wmovea"} ->
         heap' = Put(heap, rw[a]) /\ rw' = [rw EXCEPT ![a] = rw[b], ![b] = 0] /\ UNCHANGED ro
    [] op[1] = "wswap" -> rw' = [rw EXCEPT ![a] = rw[b], ![b] = rw[a]] /\ UNCHANGED <<heap, ro>>
    [] op[1] = "purge" -> heap' = Put(heap, ro[a][1]) /\ ro' = [ro EXCEPT ![a] = Nothing] /\ UNCHANGED rw
    [] op[1] = "wpurge" -> heap' = Put(heap, rw[a]) /\ rw' = [rw EXCEPT ![a] = 0] /\ UNCHANGED ro
    [] op[1] \in {"w2r", "w2rc", "w2ro"} ->
         /\ heap' = Put(heap, ro[a][1])
         /\ ro' = [ro EXCEPT ![a] = IF rw[b] = 0 THEN Nothing ELSE <<rw[b], 0>>] /\ rw' = [rw EXCEPT ![b] = 0]
    [] op[1] \in {"r2w", "r2wc"} ->
         IF ro[b][1] = 0 THEN UNCHANGED vars
         ELSE IF heap[ro[b][1]].n = 1 /\ ro[b][2] = 0
         THEN /\ heap' = Put(heap, rw[a]) /\ rw' = [rw EXCEPT ![a] = ro[b][1]]
              /\ ro' = [ro EXCEPT ![b] = Nothing]
         ELSE LET h == New(heap, See(ro[b])) IN
              /\ heap' = Put(Put(h, ro[b][1]), rw[a]) /\ rw' = [rw EXCEPT ![a] = FreeOne(heap)]
              /\ ro' = [ro EXCEPT ![b] = Nothing]
    [] op[1] = "rwclone" -> IF rw[b] = 0 THEN UNCHANGED vars ELSE PlaceRw(a, heap[rw[b]].c)
    [] op[1] = "rwcloner" -> PlaceRw(a, IF ro[b][1] = 0 THEN Fresh ELSE See(ro[b]))
    [] op[1] = "roclone" -> Share(a, ro[b])
    [] op[1] \in {"roclonew", "take", "takeopt", "ext"} -> PlaceRo(a, heap[rw[b]].c)
    [] op[1] \in {"nest", "nest2"} ->
         Share(a, IF Tail(See(ro[b])) = <<>> THEN Nothing ELSE <<ro[b][1], ro[b][2] + 1>>)
    [] op[1] = "nestw" ->
         IF Tail(heap[rw[b]].c) = <<>> THEN Share(a, Nothing) ELSE PlaceRo(a, Tail(heap[rw[b]].c))

Args(o) ==
  CASE o \in {"write"} -> (1..NW) \X Values_
    [] o \in {"fill"} -> (1..NW) \X {0, 900}
    [] o \in {"new", "drop", "reset", "opt", "wpurge"} -> (1..NW) \X {1}
    [] o \in {"purge"} -> (1..NR) \X {1}
    [] o \in {"put", "r2w", "r2wc", "rwcloner"} -> (1..NW) \X (1..NR)
    [] o \in {"putw", "wmovec", "wmovea", "wswap", "rwclone"} -> (1..NW) \X (1..NW)
    [] o \in {"copy", "assign", "movec", "movea", "swap", "roclone", "nest", "nest2"} -> (1..NR) \X (1..NR)
    [] OTHER -> (1..NR) \X (1..NW)

Deep(st) == \A c \in {st.ro[i] : i \in 1..NR} \cup {st.rw[i] : i \in 1..NW} : Len(c) <= MaxDepth
Show(h, o, w) == ToString(<<h, o, w>>)
Next == \E o \in Ops : \E x \in Args(o) :
  LET op == <<o, x[1], x[2]>> IN
  /\ Enabled(op, Logical)
  /\ Deep(Apply(op, Logical).st)
  /\ Do(op)
  /\ Assert(Logical' = Apply(op, Logical).st, op)
  /\ Emit => PrintT("EDGE#" \o Show(heap, ro, rw) \o "#" \o ToString(op) \o "#" \o ToString(Apply(op, Logical).r = "ok")
                    \o "#" \o Show(heap', ro', rw'))
Spec == Init /\ [][Next]_vars

Handles_(b) == Cardinality({i \in 1..NR : ro[i][1] = b}) + Cardinality({i \in 1..NW : rw[i] = b})
Counted == \A b \in Buffers : heap[b].n = Handles_(b)
Exclusive == \A i \in 1..NW : rw[i] # 0 => heap[rw[i]].n = 1
=============================================================================
