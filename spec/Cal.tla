--------------------------------- MODULE Cal --------------------------------
(* The calendar as a machine that moves from day to day (property C21), and the    *)
(* closed formulas that the date-time specification uses, checked against it.      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS From, Days               \* start at 1 January of the year From - 1000 and walk this many days
VARIABLES y, m, d, w, n            \* date, day of the week, days since 1970-01-01

Leap(yy) == (yy % 4 = 0 /\ yy % 100 # 0) \/ yy % 400 = 0
MonthLen(yy, mm) == CASE mm = 2 -> IF Leap(yy) THEN 29 ELSE 28 [] mm \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
\* days since 1970-01-01 of a date in the proleptic Gregorian calendar
DaysOf(yy, mm, dd) ==
    LET a == IF mm <= 2 THEN yy - 1 ELSE yy
        era == a \div 400
        yoe == a - era * 400
        mp == (mm + 9) % 12
        doy == ((153 * mp) + 2) \div 5 + dd - 1
        doe == (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy IN
    (era * 146097) + doe - 719468
\* and back: <<year, month, day>>
Civil(days) ==
    LET z == days + 719468
        era == z \div 146097
        doe == z - (era * 146097)
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - ((365 * yoe) + (yoe \div 4) - (yoe \div 100))
        mp == ((5 * doy) + 2) \div 153
        dd == doy - (((153 * mp) + 2) \div 5) + 1
        mm == IF mp < 10 THEN mp + 3 ELSE mp - 9 IN
    <<(yoe + (era * 400)) + (IF mm <= 2 THEN 1 ELSE 0), mm, dd>>
Dow(days) == (days + 4) % 7        \* 0 is Sunday; 1970-01-01 was a Thursday

\* the machine starts from 1970-01-01 walked year by year to the first year
RECURSIVE YearStart(_)
YearStart(yy) == IF yy = 1970 THEN 0 ELSE IF yy > 1970 THEN YearStart(yy - 1) + (IF Leap(yy - 1) THEN 366 ELSE 365)
                 ELSE YearStart(yy + 1) - (IF Leap(yy) THEN 366 ELSE 365)
FirstYear == From - 1000
N0 == YearStart(FirstYear)
Init == y = FirstYear /\ m = 1 /\ d = 1 /\ n = N0 /\ w = (N0 + 4) % 7
NextDay ==
    /\ n < N0 + Days
    /\ n' = n + 1
    /\ w' = (IF w = 6 THEN 0 ELSE w + 1)
    /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
       ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
       ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Spec == Init /\ [][NextDay]_<<y, m, d, w, n>>
Formulas == Civil(n) = <<y, m, d>> /\ DaysOf(y, m, d) = n /\ Dow(n) = w
=============================================================================
