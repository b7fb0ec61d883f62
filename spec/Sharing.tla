------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* What owners of a shared buffer see, without a word on how it is done.   *)
(* A buffer is held by some number of handles; an owner which gives its    *)
(* handle up is `pending' from the call till the return.  The buffer is    *)
(* released exactly once, when nobody holds it, by one of those who are    *)
(* giving it up.  A handle may be turned into a writable tuple: the very   *)
(* buffer is taken over when nobody else holds it, then it may be changed  *)
(* until it is shared again.                                               *)
(***************************************************************************)
EXTENDS Integers

\* s.held, s.pend, s.freed, s.own (taken over), s.want (the contents, 0 - yet unknown)
Fresh == [held |-> 0, pend |-> 0, freed |-> FALSE, own |-> FALSE, want |-> 0]

Ok(s, k, v) ==
  CASE k = "new"   -> TRUE
    [] k = "acq"   -> ~s.freed
    [] k = "rel"   -> ~s.freed /\ s.held > 0
    [] k = "free"  -> ~s.freed /\ s.held = 0 /\ s.pend > 0
    [] k = "done"  -> s.pend > 0 /\ (s.held = 0 /\ s.pend = 1 => s.freed)
    [] k = "take"  -> ~s.freed /\ s.held = 0 /\ s.pend > 0
    [] k = "write" -> ~s.freed /\ s.held = 1 /\ (s.own \/ s.want = 0)
    [] k = "share" -> ~s.freed /\ s.held = 1
    [] k = "read"  -> ~s.freed /\ s.held > 0 /\ v = s.want
    [] OTHER -> FALSE

After(s, k, v) ==
  CASE k = "new"   -> Fresh
    [] k = "acq"   -> [s EXCEPT !.held = @ + 1]
    [] k = "rel"   -> [s EXCEPT !.held = @ - 1, !.pend = @ + 1]
    [] k = "free"  -> [s EXCEPT !.freed = TRUE, !.own = FALSE]
    [] k = "done"  -> [s EXCEPT !.pend = @ - 1]
    [] k = "take"  -> [s EXCEPT !.held = 1, !.pend = @ - 1, !.own = TRUE]
    [] k = "write" -> [s EXCEPT !.want = v, !.own = TRUE]
    [] k = "share" -> [s EXCEPT !.own = FALSE]
    [] OTHER -> s

\* in the end nobody holds it, and it is released
Over(s) == s.held = 0 /\ s.pend = 0 /\ s.freed
=============================================================================
