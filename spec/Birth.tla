--------------------------------- MODULE Birth ---------------------------------
(* The properties elements are given when they are released, and where those come from.
   Windages in millionths; persistence in seconds (-1: for ever); densities in g/m3; temperatures in hundredths of a kelvin;
   droplet diameters in micrometres; kinematic viscosities of water in 10^-9 m2/s, of oil in 10^-9 m2/s; rise velocities in micrometres
   per second; masses in g; fractions in millionths. A substance is
   [kind, lo, hi, pers, dens, dist, oil]; NONE stands for a setting that was not given. *)
EXTENDS Series
NONE == -9999
FATES == [non |-> 1, surface |-> 2, subsurf |-> 4]
(* ---- settings ---- *)
RangeOk(r) == Len(r) = 2 /\ \A i \in 1..Len(r) : r[i] >= 0
PersOk(p) == p # 0
Lasting(p) == IF p = NONE THEN 900 ELSE IF p = 0 - 7777 THEN -1 ELSE p       (* -7777: an infinite number *)
Ranged(r) == IF r = <<>> THEN <<10000, 40000>> ELSE r
Created(c) == [kind |-> c.kind, range |-> Ranged(c.range), pers |-> Lasting(c.pers), dens |-> c.dens, dist |-> c.dist, oil |-> c.oil]
(* ---- droplets ---- *)
(* buoyancy, 10^-6 m/s2 *)
Buoy(rw, ro) == DS(98 * (rw - ro), 10 * rw, 6)
RECURSIVE Root(_, _)
Root(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Root(n, y)
Isqrt(n) == IF n <= 0 THEN 0 ELSE Root(n, IF n > 46340 THEN 46340 ELSE n)
SmallV(b, nu, d) == MulFrac(b, DS(d * d * 100, 18 * nu, 1))
LargeV(b, d) == IF d = 0 THEN 0 ELSE IF b < 260000000 \div d THEN Isqrt((8 * b * d) \div 3)
                ELSE LET x == (8 * b) \div 3 IN 10 * Isqrt((x \div 100) * d + ((x % 100) * d) \div 100)
SMALL == 200
LARGE == 10000
MidV(b, nu, d) ==
  LET x == DS(d - SMALL, LARGE - SMALL, 6)
      a == MulFrac(b, DS(SMALL * SMALL * 100, 18 * nu, 3))
      a1 == DS(a, 100, 0)
      a2 == DS(a * 245, 1000, 0)
      a3 == LargeV(b, LARGE)
      a4 == DS(a3 * 49, 100, 0)
      c3 == 2 * a1 + a2 - 2 * a3 + a4
      c2 == 3 * a3 - 3 * a1 - 2 * a2 - a4
  IN MulFrac(MulFrac(MulFrac(c3, x) + c2, x) + a2, x) + a1
RiseUp(b, nu, d) == IF d < SMALL THEN SmallV(b, nu, d) ELSE IF d >= LARGE THEN LargeV(b, d) ELSE MidV(b, nu, d)
Rise(rw, ro, nu, d) == LET b == Buoy(rw, ro) IN IF b >= 0 THEN RiseUp(b, nu, d) ELSE -RiseUp(-b, nu, d)      (* what is heavier sinks *)
(* ---- oil ---- *)
(* measured densities <<<<temperature, density>>, ...>> in ascending order of temperature *)
Lowest(o) == Min2(o.dens[1][1], o.pour)
Floor(o, t) == Max2(t, Lowest(o))
Expand(o) == IF o.api > 30 THEN 9 ELSE 8
(* density from a measured one, by thermal expansion *)
Expanded(p, k, t) == DivFrac(p[2], 1000000 + k * (t - p[1]))
Outside(o, t) == t < o.dens[1][1] \/ t > o.dens[Len(o.dens)][1]
Between(o, t) == CHOOSE k \in 1..(Len(o.dens) - 1) : o.dens[k][1] <= t /\ t < o.dens[k + 1][1]
Density(o, tt) ==
  LET t == Floor(o, tt) N == Len(o.dens) IN
  IF t <= o.dens[1][1] THEN Expanded(o.dens[1], Expand(o), t)
  ELSE IF t >= o.dens[N][1] THEN Expanded(o.dens[N], Expand(o), t)
  ELSE LET i == Between(o, t) a == o.dens[i] b == o.dens[i + 1] IN a[2] + MulFrac(b[2] - a[2], DS(t - a[1], b[1] - a[1], 6))
(* between measurements it is straight but for second order *)
DensityTol(o, tt) ==
  LET t == Floor(o, tt) N == Len(o.dens) IN
  IF t <= o.dens[1][1] \/ t >= o.dens[N][1] THEN 4
  ELSE LET i == Between(o, t) d == Abs(o.dens[i + 1][2] - o.dens[i][2]) \div 1000 IN IF t = o.dens[i][1] THEN 4 ELSE 8 + (3 * d * d) \div 2 + d
DensityOk(o, t, r) == Near(r, Density(o, t), DensityTol(o, t))
(* ln of a kinematic viscosity, millionths, at t; the data <<<<temperature, ln viscosity>>, ...>> *)
Fit1(p, t) == p[2] + MulFrac(DS(DS(p[1] - t, p[1], 6), t, 6), 210000)
RECURSIVE MulBig(_, _)
MulBig(a, f) == IF f < 0 THEN -MulBig(a, -f) ELSE a * (f \div 1000000) + MulFrac(a, f % 1000000)
Fit2(p, q, t) == p[2] + MulFrac(MulBig(q[2] - p[2], DS(t - p[1], q[1] - p[1], 6)), DS(q[1], t, 6))
Sum3(f) == f[1] + f[2] + f[3]
Recip(t) == DS(10000, t, 6)
(* the residuals of a straight line through three points by least squares *)
Balanced(vs, fs) == LET r == [i \in 1..3 |-> fs[i] - vs[i][2]] IN
   /\ Near(Sum3(r), 0, 10) /\ Near(Sum3([i \in 1..3 |-> MulFrac(r[i], Recip(vs[i][1]) - Recip(vs[1][1]))]), 0, 10)
(* ---- distributions: quartiles, of what is recorded: thousandths of the values (uniform, normal) or of their logarithm (lognormal),
   millionths of (x/lambda)^alpha (weibull) ---- *)
Quartiles(d) ==
  CASE d.kind = "uniform" -> [q \in 1..3 |-> 1000 * d.a + 250 * q * (d.b - d.a)]
    [] d.kind = "normal" -> <<1000 * d.a - MulFrac(1000 * d.b, 674490), 1000 * d.a, 1000 * d.a + MulFrac(1000 * d.b, 674490)>>
    [] d.kind = "lognormal" -> <<d.a - MulFrac(d.b, 674490), d.a, d.a + MulFrac(d.b, 674490)>>
    [] d.kind = "weibull" -> <<287682, 693147, 1386294>>
(* counts of n draws below the quartiles *)
Fair(n, cnt) == \A q \in 1..3 : Near(4 * cnt[q], q * n, 20 * Isqrt((n * q * (4 - q)) \div 16) + 4)
(* ---- newborn elements ---- *)
Fate(s, z) == IF s.kind # "oil" THEN FATES.non ELSE IF z = 0 THEN FATES.surface ELSE FATES.subsurf
DefaultTemp == 28815
DefaultDensity == 1025000
(* ---- the water: temperatures in hundredths of a kelvin, lengths in mm, sediment in mg per cubic metre ---- *)
KIND == [temperature |-> "t", wave_height |-> "l", fetch |-> "l", sediment |-> "s"]
MEASURES == [temperature |-> {"K", "C", "F"}, wave_height |-> {"m", "cm", "ft"}, fetch |-> {"m", "cm", "ft"}, sediment |-> {"kg/m^3", "mg/l"}]
SI == [temperature |-> "K", wave_height |-> "m", fetch |-> "m", sediment |-> "kg/m^3"]
(* a value given in a unit: its reading in that unit, hundredths of a degree, thousandths of a length, millionths of kg/m^3 or thousandths of mg/l *)
Into(v, u) == CASE u = "K" -> v [] u = "C" -> v - 27315 [] u = "F" -> DS(9 * (v - 27315), 5, 0) + 3200
                [] u = "m" -> v [] u = "cm" -> 100 * v [] u = "ft" -> DS(v * 1250, 381, 0)
                [] u \in {"kg/m^3", "mg/l"} -> v
(* the same number, read in another unit than it was given in *)
From(x, u) == CASE u = "K" -> x [] u = "C" -> x + 27315 [] u = "F" -> DS(5 * (x - 3200), 9, 0) + 27315
                [] u = "m" -> x [] u = "cm" -> DS(x, 100, 0) [] u = "ft" -> DS(x * 381, 1250, 0)
                [] u \in {"kg/m^3", "mg/l"} -> x
=============================================================================
