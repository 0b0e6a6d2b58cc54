------------------------------ MODULE SeriesMC ------------------------------
(* histories of one wind: given, asked, its unit, zone and permission changed *)
EXTENDS Series, TLC
CONSTANTS VALS, TIMES, STEPS
ZONES == {NOZONE, -800, 0, 550}
VARIABLES w, given, shift, n
vars == <<w, given, shift, n>>
Vals == {<<>>} \cup UNION {{[i \in 1..k |-> <<ts[i], r[i], d[i]>>] : ts \in [1..k -> TIMES], r \in [1..k -> VALS], d \in [1..k -> {0, 9000, 22550}]} : k \in 1..2}
Start == {v \in Vals : v # <<>> /\ Proper(v, "rt")}
New(v, u) == [ts |-> Given(v, u, "rt"), unit |-> u, ext |-> FALSE, tz |-> NOZONE]
Init == \E v \in Start, u \in {"m/s", "knot"} : w = New(v, u) /\ given = w.ts /\ shift = 0 /\ n = 0
Unit == \E u \in UNITS : w' = [w EXCEPT !.unit = u] /\ UNCHANGED <<given, shift>>
Zone == \E z \in ZONES : /\ w' = Rezone(w, z) /\ UNCHANGED given
                         /\ shift' = IF z = NOZONE \/ w.tz = NOZONE THEN shift ELSE shift + 36 * (z - w.tz)
Permit == w' = [w EXCEPT !.ext = ~@] /\ UNCHANGED <<given, shift>>
Next == n < STEPS /\ n' = n + 1 /\ (Unit \/ Zone \/ Permit)
Spec == Init /\ [][Next]_vars
Between(x, a, b) == x >= Min2(a, b) - 1 /\ x <= Max2(a, b) + 1
Inv == /\ w.ts = Shifted(given, shift)
       /\ \A i \in 1..(Len(w.ts) - 1) : w.ts[i][1] < w.ts[i + 1][1]
       /\ \A i \in 1..Len(w.ts) : ValueAt(w.ts, w.ts[i][1]) = Tail(w.ts[i])
       /\ ValueAt(w.ts, First(w.ts) - 500) = Tail(w.ts[1]) /\ ValueAt(w.ts, Last(w.ts) + 500) = Tail(w.ts[Len(w.ts)])
       /\ (Len(w.ts) = 2 => \A k \in 1..3 : LET t == First(w.ts) + (k * (Last(w.ts) - First(w.ts))) \div 4 x == ValueAt(w.ts, t) IN
             Between(x[1], w.ts[1][2], w.ts[2][2]) /\ Between(x[2], w.ts[1][3], w.ts[2][3]))
       /\ \A i \in 1..Len(w.ts) : \A k \in 2..3 : Near(ToMm(FromMm(w.ts[i][k], w.unit), w.unit), w.ts[i][k], 2)
=============================================================================
