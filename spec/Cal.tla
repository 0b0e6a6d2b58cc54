-------------------------------- MODULE Cal --------------------------------
(* The civil calendar GNOME's times live on: dates without a zone and without   *)
(* daylight saving, their seconds, rounding, fixed offsets, and the order of    *)
(* times with the two infinite ones.                                            *)
EXTENDS Integers, Sequences, Util, TLC

Leap(y) == (y % 4 = 0 /\ y % 100 /= 0) \/ y % 400 = 0
Dim(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
             ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
Leaps(y) == y \div 4 - y \div 100 + y \div 400          \* leap years up to and including y
Days(y, m, d) == 365 * (y - 1970) + Leaps(y - 1) - Leaps(1969)
                 + Cum[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
Dow(n) == (n + 4) % 7                                   \* 0 is Sunday
Secs(c) == Days(c[1], c[2], c[3]) * 86400 + c[4] * 3600 + c[5] * 60 + c[6]

(* the inverse: the civil date of a number of days *)
YearOf(n) == LET g == 1970 + n \div 366 IN
             IF n >= Days(g + 1, 1, 1) THEN g + 1 ELSE g
MonthOf(y, r) == CHOOSE m \in 1..12 : r >= Cum[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
                                      /\ r < Cum[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + Dim(y, m)
DateOf(n) == LET y == YearOf(n)
                 r == n - Days(y, 1, 1)
                 m == MonthOf(y, r)
             IN <<y, m, r - (Days(y, m, 1) - Days(y, 1, 1)) + 1>>
Civil(s) == LET dd == DateOf(s \div 86400)
                r == s % 86400
            IN <<dd[1], dd[2], dd[3], r \div 3600, (r % 3600) \div 60, r % 60>>

(* the n-th given weekday of a month, and the last one: where zones switch to and from summer time *)
NthSunday(y, m, n) == LET f == Dow(Days(y, m, 1)) IN 1 + ((7 - f) % 7) + 7 * (n - 1)
LastSunday(y, m) == LET l == Dim(y, m) IN l - Dow(Days(y, m, l))

(* rounding to the nearest multiple of r seconds of the day, halves upwards (r divides a day) *)
Round(s, r) == (s \div 86400) * 86400 + (((2 * (s % 86400)) + r) \div (2 * r)) * r

(* fixed offsets from UTC, in minutes *)
Pad(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
IsoOffset(m) == LET a == IF m < 0 THEN -m ELSE m
                IN (IF m < 0 THEN "-" ELSE "+") \o Pad(a \div 60) \o ":" \o Pad(a % 60)

(* the ordered line of times: MINF below, INF above every date *)
MINF == -2147483000
INF  ==  2147483000
Rel(a, b) == [lt |-> a < b, le |-> a <= b, eq |-> a = b, ne |-> a /= b, gt |-> a > b, ge |-> a >= b]
Neg(a) == IF a = INF THEN MINF ELSE IF a = MINF THEN INF ELSE a
FirstTime == Secs(<<1970, 1, 1, 0, 0, 0>>)
LastTime  == Secs(<<2038, 1, 19, 0, 0, 0>>)
InRange(s) == s >= FirstTime /\ s <= LastTime
=============================================================================
