------------------------------ MODULE TokensMC ------------------------------
(* The order of tokens is total up to sameness: checked on all triples of   *)
(* a small world.                                                          *)
EXTENDS Tokens
CONSTANTS Genera, Places
Small == [k : {0, 1}, g : Genera, x : Places, c : {0, 1}, d : {0, 1}, s : {0}]
World == {t \in Small : t.k = 1 => t.c = 0}
VARIABLES a, b, c
Init == a \in World /\ b \in World /\ c \in World
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Total == Same(a, b) \/ Before(a, b) \/ Before(b, a)
Strict == /\ ~(Before(a, b) /\ Before(b, a)) /\ (Same(a, b) => ~Before(a, b))
          /\ (Before(a, b) /\ Before(b, c) => Before(a, c))
Congruent == Same(a, b) => (Before(a, c) <=> Before(b, c)) /\ (Before(c, a) <=> Before(c, b))
EqualIsSame == Equal(a, b) => Same(a, b)
=============================================================================
