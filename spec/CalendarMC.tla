----------------------------- MODULE CalendarMC -----------------------------
(* Turning the leaves of a calendar: the number of days counted one by one  *)
(* is what DaysOf gives, for each day a stamp of 32-bit seconds may name.   *)
EXTENDS Calendar
CONSTANT Last
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == y = 1970 /\ m = 1 /\ d = 1 /\ n = 0
Tomorrow == /\ n < Last
            /\ n' = n + 1
            /\ IF d < MonthLength(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
               ELSE /\ d' = 1
                    /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Tomorrow]_vars
Dates == IsDate(y, m, d) /\ ~IsDate(y, m, MonthLength(y, m) + 1)
Counted == DaysOf(y, m, d) = n
=============================================================================
