------------------------------- MODULE Handles -------------------------------
(***************************************************************************)
(* What the holder of managed tuples sees.  A handle is empty (<<>>) or    *)
(* has contents: the sequence of levels, the tuple itself first and then   *)
(* the one nested into it, and so on.  A level is a pair of values of two  *)
(* fields (0 stands for an absent one).  Read-only handles are ro[1..],    *)
(* writable ones are rw[1..].  Contents of a handle is changed by          *)
(* operations on that very handle only.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fresh == <<<<0, 0>>>>
Ok(st) == [st |-> st, r |-> "ok"]
Fail(st, why) == [st |-> st, r |-> why]
SetRo(st, i, c) == [st EXCEPT !.ro[i] = c]
SetRw(st, i, c) == [st EXCEPT !.rw[i] = c]

\* op = <<name, argument...>>
Apply(op, st) ==
  LET a == op[2]  b == op[3] IN
  CASE op[1] = "new"    -> Ok(SetRw(st, a, Fresh))
    [] op[1] = "write"  -> Ok(SetRw(st, a, <<<<b, st.rw[a][1][2]>>>> \o Tail(st.rw[a])))
    [] op[1] = "fill"   -> Ok(SetRw(st, a, <<<<st.rw[a][1][1], b>>>> \o Tail(st.rw[a])))
    [] op[1] = "put"    -> Ok(SetRw(st, a, <<st.rw[a][1]>> \o st.ro[b]))
    [] op[1] = "putw"   -> Ok(SetRw(st, a, <<st.rw[a][1]>> \o st.rw[b]))
    [] op[1] = "drop"   -> Ok(SetRw(st, a, <<st.rw[a][1]>>))
    [] op[1] = "reset"  -> Ok(SetRw(st, a, Fresh))
    [] op[1] = "opt"    -> Ok(st)
    [] op[1] = "copy"   -> Ok(SetRo(st, a, st.ro[b]))
    [] op[1] = "assign" -> Ok(SetRo(st, a, st.ro[b]))
    [] op[1] \in {"movec", "movea"} -> Ok(SetRo(SetRo(st, b, <<>>), a, st.ro[b]))
    [] op[1] = "swap"   -> Ok(SetRo(SetRo(st, a, st.ro[b]), b, st.ro[a]))
    [] op[1] \in {"wmovec", "wmovea"} -> Ok(SetRw(SetRw(st, b, <<>>), a, st.rw[b]))
    [] op[1] = "wswap"  -> Ok(SetRw(SetRw(st, a, st.rw[b]), b, st.rw[a]))
    [] op[1] = "purge"  -> Ok(SetRo(st, a, <<>>))
    [] op[1] = "wpurge" -> Ok(SetRw(st, a, <<>>))
       \* a writable tuple becomes a read-only one, and back
    [] op[1] \in {"w2r", "w2rc", "w2ro"} -> Ok([SetRo(st, a, st.rw[b]) EXCEPT !.rw[b] = <<>>])
    [] op[1] \in {"r2w", "r2wc"} ->
         IF st.ro[b] = <<>> THEN Fail(st, "hollow")
         ELSE Ok([SetRw(st, a, st.ro[b]) EXCEPT !.ro[b] = <<>>])
       \* clones; of nothing a new tuple is made, or nothing
    [] op[1] = "rwclone"  -> IF st.rw[b] = <<>> THEN Fail(st, "hollow") ELSE Ok(SetRw(st, a, st.rw[b]))
    [] op[1] = "rwcloner" -> Ok(SetRw(st, a, IF st.ro[b] = <<>> THEN Fresh ELSE st.ro[b]))
    [] op[1] = "roclone"  -> Ok(SetRo(st, a, st.ro[b]))
    [] op[1] \in {"roclonew", "take", "takeopt"} -> Ok(SetRo(st, a, st.rw[b]))
    [] op[1] = "ext"      -> Ok(SetRo(st, a, st.rw[b]))
       \* views of nested ones
    [] op[1] \in {"nest", "nest2"} -> Ok(SetRo(st, a, Tail(st.ro[b])))
    [] op[1] = "nestw"    -> Ok(SetRo(st, a, Tail(st.rw[b])))

\* when an operation makes sense
Enabled(op, st) ==
  LET a == op[2]  b == op[3] IN
  CASE op[1] \in {"write", "fill", "drop", "reset", "opt"} -> st.rw[a] # <<>>
       \* (a tuple without fields isn't stored)
    [] op[1] = "put" -> st.rw[a] # <<>> /\ st.ro[b] \notin {<<>>, Fresh}
    [] op[1] = "putw" -> a # b /\ st.rw[a] # <<>> /\ st.rw[b] \notin {<<>>, Fresh}
    [] op[1] \in {"movec", "movea", "swap", "wmovec", "wmovea", "wswap"} -> a # b
    [] op[1] \in {"w2ro", "take", "takeopt", "ext", "roclonew", "nestw"} -> st.rw[b] # <<>>
    [] op[1] \in {"nest", "nest2"} -> st.ro[b] # <<>>
    [] OTHER -> TRUE

\* these only pass buffers from hand to hand
NoAllocation == {"copy", "assign", "movec", "movea", "swap", "wmovec", "wmovea", "wswap",
                 "purge", "wpurge", "w2r", "w2rc", "nest", "nest2"}
=============================================================================
