------------------------------- MODULE CalMC -------------------------------
(* walks the calendar day by day and checks that the closed forms agree with it *)
EXTENDS Cal
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
CONSTANT LASTYEAR
Init == y = 1970 /\ m = 1 /\ d = 1 /\ n = 0
Next == /\ <<y, m, d>> /= <<LASTYEAR, 12, 31>>
        /\ n' = n + 1
        /\ IF d < Dim(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
           ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
           ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars
Numbered == Days(y, m, d) = n /\ DateOf(n) = <<y, m, d>>
Weekly == Dow(n) = (n + 4) % 7 /\ Dow(n + 7) = Dow(n)
Sundays == LET a == NthSunday(y, m, 2) b == LastSunday(y, m) IN
           a \in 8..14 /\ Dow(Days(y, m, a)) = 0 /\ b \in 22..31 /\ b <= Dim(y, m) /\ Dow(Days(y, m, b)) = 0
(* with 2038-01-18 as the last whole day that fits *)
Seconds == \A t \in {0, 1, 3599, 7200, 43200, 86399} :
             LET s == n * 86400 + t IN Civil(s) = <<y, m, d, t \div 3600, (t % 3600) \div 60, t % 60>> /\ Secs(Civil(s)) = s
Rounding == n % 97 = 0 =>
   \A r \in {1, 2, 15, 60, 900, 3600, 86400} : \A t \in {0, 1, 29, 30, 31, 89, 450, 1799, 1800, 43199, 43200, 86399} :
     LET s == n * 86400 + t  q == Round(s, r) IN
     q % r = 0 /\ 2 * (q - s) <= r /\ 2 * (s - q) < r /\ Round(q, r) = q /\ Round(s + 1, r) >= q
Offsets == n = 0 => /\ IsoOffset(0) = "+00:00" /\ IsoOffset(-210) = "-03:30" /\ IsoOffset(345) = "+05:45"
                    /\ \A a, b \in -840..840 : (a - b) % 7 = 0 /\ IsoOffset(a) = IsoOffset(b) => a = b
Ordered == n = 0 => LET P == {MINF, FirstTime, 5, 1700000000, LastTime, INF} IN
   /\ \A a, b \in P : LET r == Rel(a, b) IN
        /\ Cardinality({x \in {1, 2, 3} : <<r.lt, r.eq, r.gt>>[x]}) = 1
        /\ r.le = (r.lt \/ r.eq) /\ r.ge = (r.gt \/ r.eq) /\ r.ne = ~r.eq
        /\ Rel(b, a).lt = r.gt
   /\ \A a, b, c \in P : Rel(a, b).lt /\ Rel(b, c).lt => Rel(a, c).lt
   /\ \A a \in P : Neg(Neg(a)) = a
=============================================================================
