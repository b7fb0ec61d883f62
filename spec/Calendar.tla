------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar (UTC without leap seconds).             *)
EXTENDS Naturals

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLength(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                       [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                       [] OTHER -> 31
IsDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLength(y, m)

\* leap years before the year y
Leaps(y) == (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
Elapsed == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* days since 1970-01-01
DaysOf(y, m, d) == 365 * (y - 1970) + Leaps(y) - Leaps(1970)
                   + Elapsed[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0) + d - 1
=============================================================================
