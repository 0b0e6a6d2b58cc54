---------------------------------- MODULE Mov ----------------------------------
(* How far each kind of mover moves an element in one step, and for how long the uncertainty of an element stays.
   Times in seconds; speeds in mm/s; windages in millionths; horizontal distances in cm; deltas in 10^-8 degrees, vertical ones in
   10^-5 m; depths in mm (0: at the surface); latitudes in 10^-4 degrees; diffusion in 100 cm2/s (horizontal) and 0.01 cm2/s (vertical). *)
EXTENDS Series
INWATER == 2
FOREVER == 1000000000
(* a mover works in a step if the middle of the step lies in its range and it is on; times doubled *)
Works(on, r0, r1, t, dt) == on /\ (r0 = -FOREVER \/ 2 * r0 <= 2 * t + dt) /\ (r1 = FOREVER \/ 2 * t + dt <= 2 * r1)
(* sine and cosine of 10^-4 degrees *)
SinT(c) == LET d == c \div 10000 IN Sin6(d) + ((Sin6(d + 1) - Sin6(d)) * (c % 10000)) \div 10000
CosT(c) == SinT(c + 900000)
CmLonT(c, lat) == DivFrac(CmLat(c), CosT(lat))
RECURSIVE Root(_, _)
Root(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Root(n, y)
Isqrt(n) == IF n <= 0 THEN 0 ELSE Root(n, IF n > 46340 THEN 46340 ELSE n)
(* --- the velocity that carries over a step, by method: at its start, start and end, start, middle and end --- *)
Mean2(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
Simpson(a, m, b) == <<(a[1] + 4 * m[1] + b[1]) \div 6, (a[2] + 4 * m[2] + b[2]) \div 6>>
Carries(ts, t, dt, method) ==
  CASE method = "Euler" -> ValueAt(ts, t)
    [] method = "RK2" -> Mean2(ValueAt(ts, t), ValueAt(ts, t + dt))
    [] method = "RK4" -> Simpson(ValueAt(ts, t), ValueAt(ts, t + dt \div 2), ValueAt(ts, t + dt))
(* velocities are worked with in 10^-5 m/s *)
Fine(ts) == [i \in 1..Len(ts) |-> <<ts[i][1], 100 * ts[i][2], 100 * ts[i][3]>>]
FineCm(v, dt) == DriftCm(DS(v, 100, 0), dt) + DS((v - 100 * DS(v, 100, 0)) * dt, 1000, 0)
(* --- forecast displacement <<east cm, north cm, down 10^-5 m>> of element e by mover m --- *)
Part(cm, f) == MulFrac(cm, f)
Share(v, dt, f, scale) == <<Part(DS(FineCm(v[1], dt) * scale, 10, 0), f), Part(DS(FineCm(v[2], dt) * scale, 10, 0), f), 0>>
Sinks(m, e) ==      (* does the mover act on this element *)
  e.st = INWATER /\ CASE m.kind \in {"point", "wind", "random"} -> e.z = 0 [] OTHER -> TRUE
Drift(m, e, t, dt) ==
  CASE ~Sinks(m, e) -> <<0, 0, 0>>
    [] m.kind = "point" -> Share(ValueAt(Fine(m.ts), t), dt, e.w, 10)
    [] m.kind = "wind" -> Share(Carries(Fine(m.ts), t, dt, m.method), dt, e.w, m.scale)
    [] m.kind = "current" -> Share(Carries(Fine(m.ts), t, dt, m.method), dt, 1000000, m.scale)
    [] m.kind = "simple" -> <<DriftCm(m.ts[1][2], dt), DriftCm(m.ts[1][3], dt), 100 * m.down * dt>>
    [] m.kind = "rise" -> <<0, 0, -e.rise * dt>>
    [] OTHER -> <<0, 0, 0>>
Delta(d, lat) == <<CmLonT(d[1], lat), CmLat(d[2]), d[3]>>
(* --- random walks: the side of the square --- *)
Reach(D, dt) == 10 * Isqrt(6 * D * Abs(dt)) + 10
Plumb(D, dt) == Isqrt(6 * D * Abs(dt)) + 1
(* --- how long an uncertainty stays: [start, set, ids]: since when the run goes, when all were drawn last, who has one --- *)
FRESH == [start |-> FOREVER, set |-> 0, ids |-> {}]
Begun(s, t) == IF s.start = FOREVER THEN [s EXCEPT !.start = t] ELSE s
Elapsed(s, t) == Abs(t - s.start)
Redraws(s, t, dur) == s.ids = {} \/ Elapsed(s, t) < s.set \/ Elapsed(s, t) >= s.set + dur
Drawn(s, t, ids, delay, dur) ==
  IF Elapsed(s, t) < delay THEN s ELSE IF Redraws(s, t, dur) THEN [s EXCEPT !.set = Elapsed(s, t), !.ids = ids] ELSE [s EXCEPT !.ids = ids]
(* those whose uncertainty is the one of the last step *)
Keeps(s, t, delay, dur) == IF Elapsed(s, t) < delay \/ Redraws(s, t, dur) THEN {} ELSE s.ids
(* --- windages that change in time: half the width of what they are drawn from --- *)
Spread(lo, hi, pers, dt) == 5 * MulFrac(hi - lo, 10 * Isqrt(DS(pers, Abs(dt), 4) * 10000)) + 6
=============================================================================
