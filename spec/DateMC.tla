------------------------------- MODULE DateMC -------------------------------
(* HTTP dates (RFC 9110, IMF-fixdate).  The calendar is a machine that steps
   from day to day and from second to second; the text of a date is what the
   machine shows at its time.  A time is [day, sec, ns]: the day counted from
   1970-01-01, the second of the day and the nanosecond of the second.  Dates
   are ordered and equal as their times are, to the nanosecond.            *)
EXTENDS LogText, Emit
CONSTANTS FirstDay, LastDay,     \* the days (from the first of a year: FirstYear)
          FirstYear, FirstWd,
          OneDay           \* TRUE: step through the seconds of a day instead
VARIABLES day, y, m, d, wd, h, mi, s
vars == <<day, y, m, d, wd, h, mi, s>>

DayNames == <<<<83,117,110>>, <<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>>>
MonthNames == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
                <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>
Text_ == DayNames[wd + 1] \o <<44, 32>> \o Num2(d) \o <<32>> \o MonthNames[m] \o <<32>> \o PadLeft(Dec(y), 4, 48)
         \o <<32>> \o Num2(h) \o <<58>> \o Num2(mi) \o <<58>> \o Num2(s) \o <<32, 71, 77, 84>>

\* seconds that go with a day, so that all digits of a time occur
Sec(n) == (n * 3919 + 86399) % 86400
Init == /\ day = FirstDay /\ y = FirstYear /\ m = 1 /\ d = 1 /\ wd = FirstWd
        /\ LET t == IF OneDay THEN 0 ELSE Sec(FirstDay + 200000) IN h = t \div 3600 /\ mi = (t \div 60) % 60 /\ s = t % 60
NextDay == /\ ~OneDay /\ day < LastDay /\ day' = day + 1 /\ wd' = (wd + 1) % 7
           /\ LET t == Sec(day + 200001) IN h' = t \div 3600 /\ mi' = (t \div 60) % 60 /\ s' = t % 60
           /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
              ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
NextSec == /\ OneDay /\ h * 3600 + mi * 60 + s < 86399 /\ UNCHANGED <<day, y, m, d, wd>>
           /\ IF s < 59 THEN s' = s + 1 /\ UNCHANGED <<h, mi>>
              ELSE s' = 0 /\ IF mi < 59 THEN mi' = mi + 1 /\ UNCHANGED h ELSE mi' = 0 /\ h' = h + 1
Next == NextDay \/ NextSec

\* the machine agrees with the closed form of LogText
Agree == (day % 97 = 0 /\ ~OneDay) => LET a == YearOf(1970, day) IN y = a[1]
Weekday == wd = ((day % 7) + 11) % 7
EmitInv == Emit([day |-> day, sec |-> h * 3600 + mi * 60 + s, t |-> Text_])
=============================================================================
