------------------------------- MODULE Series -------------------------------
(* Winds and currents as functions of time.
   Times: seconds from a base. Speeds: mm/s towards the east and the north. Given and returned speeds: thousandths of a unit;
   directions: hundredths of a degree, the one the wind comes from (the one the current goes to).
   A wind is [ts, unit, ext, tz]: points <<t, u, v>> in ascending order, the unit it talks in, whether it may be asked outside
   its data, and its distance from UTC in hundredths of an hour (NOZONE: not known). *)
EXTENDS Proj
NOZONE == -9999
UNITS == {"m/s", "knot", "mph", "km/h", "cm/s", "ft/s"}
Num(u) == CASE u = "m/s" -> 1 [] u = "knot" -> 463 [] u = "mph" -> 1397 [] u = "km/h" -> 5 [] u = "cm/s" -> 1 [] u = "ft/s" -> 381
Den(u) == CASE u = "m/s" -> 1 [] u = "knot" -> 900 [] u = "mph" -> 3125 [] u = "km/h" -> 18 [] u = "cm/s" -> 100 [] u = "ft/s" -> 1250
Held(v, k) == Clip(v, -(2000000000 \div k), 2000000000 \div k)      (* nonsense stays nonsense without overflowing *)
ToMm(v, u) == DS(Held(v, Num(u)) * Num(u), Den(u), 0)
FromMm(v, u) == DS(Held(v, Den(u)) * Den(u), Num(u), 0)
(* sine of hundredths of a degree *)
SinC(c) == Sin6(c \div 100) + ((Sin6(c \div 100 + 1) - Sin6(c \div 100)) * (c % 100)) \div 100
CosC(c) == SinC(c + 9000)
FromDir(r, c) == <<-MulFrac(r, SinC(c)), -MulFrac(r, CosC(c))>>
(* what was given, as points in mm/s *)
Point(x, unit, sys) == IF sys = "uv" THEN <<x[1], ToMm(x[2], unit), ToMm(x[3], unit)>>
                       ELSE LET p == FromDir(ToMm(x[2], unit), x[3]) IN <<x[1], p[1], p[2]>>
Given(vals, unit, sys) == [i \in 1..Len(vals) |-> Point(vals[i], unit, sys)]
Proper(vals, sys) == /\ \A i \in 1..(Len(vals) - 1) : vals[i][1] < vals[i + 1][1]
                     /\ sys = "uv" \/ \A i \in 1..Len(vals) : vals[i][2] >= 0 /\ vals[i][3] \in 0..36000
(* between two points *)
Lerp(a, b, n, d) == a + MulFrac(b - a, DS(n, d, 6))
First(ts) == ts[1][1]
Last(ts) == ts[Len(ts)][1]
Covers(ts, t) == Len(ts) = 1 \/ (First(ts) <= t /\ t <= Last(ts))
ValueAt(ts, t) ==
  IF Len(ts) = 1 \/ t <= First(ts) THEN Tail(ts[1]) ELSE IF t >= Last(ts) THEN Tail(ts[Len(ts)])
  ELSE LET i == CHOOSE k \in 1..(Len(ts) - 1) : ts[k][1] <= t /\ t < ts[k + 1][1]
           a == ts[i] b == ts[i + 1]
       IN [k \in 1..(Len(a) - 1) |-> Lerp(a[k + 1], b[k + 1], t - a[1], b[1] - a[1])]
Shifted(ts, s) == [i \in 1..Len(ts) |-> <<ts[i][1] + s>> \o Tail(ts[i])]
(* a new distance from UTC: the data is moved by the difference where both are known *)
Rezone(w, z) == [w EXCEPT !.tz = z, !.ts = IF z = NOZONE \/ w.tz = NOZONE THEN @ ELSE Shifted(@, 36 * (z - w.tz))]
(* all speeds times a fraction given in thousandths *)
Scaled(ts, f) == [i \in 1..Len(ts) |-> <<ts[i][1], DS(ts[i][2] * f, 1000, 0), DS(ts[i][3] * f, 1000, 0)>>]
(* the speed that chance keeps below in 50 +- s percent of cases, over the mean: thousandths *)
Gust(s, up) == CASE s = 10 -> IF up THEN 1080 ELSE 806 [] s = 20 -> IF up THEN 1238 ELSE 674 [] s = 30 -> IF up THEN 1432 ELSE 533 [] s = 40 -> IF up THEN 1712 ELSE 366

(* --- how far things go in dt seconds; centimetres --- *)
DriftCm(mm, dt) == DS(mm * Abs(dt), 10, 0) * Sign(dt)
(* a share w (thousandths) of the wind *)
WindCm(mm, w, dt) == DS(DS(mm * w, 100, 0) * dt, 100000, 0)
(* centimetres in 10^-8 degrees of latitude; of longitude at lat hundredths of a degree *)
CmLat(c) == 9 * c - MulFrac(c, 720)
CmLon(c, lat) == DivFrac(CmLat(c), CosC(lat))
=============================================================================
