---------------------------- MODULE SharingSpec ----------------------------
(***************************************************************************)
(* The same as a specification, to be implemented by Refcount.             *)
(***************************************************************************)
EXTENDS Sharing
VARIABLE s
Init == s = [Fresh EXCEPT !.held = 1]
Next == \E k \in {"acq", "rel", "free", "done", "take", "share"} : Ok(s, k, 0) /\ s' = After(s, k, 0)
Spec == Init /\ [][Next]_s
=============================================================================
