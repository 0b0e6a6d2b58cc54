--------------------------------- MODULE Laws ---------------------------------
(* The laws by which oil at the surface spreads, evaporates, disperses, emulsifies, and by which its density and viscosity follow, and the
   waves that drive this. Quantities that multiply are kept as natural logarithms in units of 10^-5 (SI units); sums of them are taken
   with Exp and Ln in integer arithmetic. Fractions are in millionths, times in seconds. ZERO is the logarithm of nothing. *)
EXTENDS Integers, Sequences
ZERO == -90000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
(* ---- Exp, Ln ---- *)
LN2 == 69315
S15 == 32768
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* exp(r), r in 0..LN2 (units of 10^-5), in units of 2^-15 *)
ExpR(r) == LET x == (r * 8192) \div 25000       (* 2^-15 *)
               x2 == (x * x) \div S15  x3 == (x2 * x) \div S15  x4 == (x3 * x) \div S15 x5 == (x4 * x) \div S15 x6 == (x5 * x) \div S15
           IN S15 + x + x2 \div 2 + x3 \div 6 + x4 \div 24 + x5 \div 120 + x6 \div 720
(* exp(l) for l <= 0, in units of 2^-15 *)
ExpNeg(l) == IF l < -1100000 THEN 0 ELSE LET k == ((-l) + LN2 - 1) \div LN2 r == l + k * LN2 IN ExpR(r) \div Pow2(k)
(* exp(l) as a count of 10^-5, for l up to 9 *)
Exp(l) == IF l <= 0 THEN (ExpNeg(l) * 25000) \div 8192 ELSE LET k == l \div LN2 r == l - k * LN2 IN ((ExpR(r) * 25000) \div 8192) * Pow2(k)
RECURSIVE Halve(_, _)
Halve(n, k) == IF n < 2 * S15 THEN <<n, k>> ELSE Halve(n \div 2, k + 1)
RECURSIVE Double(_, _)
Double(n, k) == IF n >= S15 THEN <<n, k>> ELSE Double(n * 2, k - 1)
(* ln of n * 2^-15, n > 0 *)
Ln(n) == LET p == IF n >= 2 * S15 THEN Halve(n, 0) ELSE Double(n, 0)
             z == ((p[1] - S15) * S15) \div (p[1] + S15)
             q == (z * z) \div S15
             z3 == (z * q) \div S15  z5 == (z3 * q) \div S15  z7 == (z5 * q) \div S15 z9 == (z7 * q) \div S15
             s == 2 * (z + z3 \div 3 + z5 \div 5 + z7 \div 7 + z9 \div 9)
         IN p[2] * LN2 + (s * 25000) \div 8192
LogAdd(a, b) == IF a <= ZERO THEN b ELSE IF b <= ZERO THEN a ELSE LET m == Max2(a, b) d == Min2(a, b) - m IN m + Ln(S15 + ExpNeg(d))
(* ln(e^a - e^b), a > b *)
LogSub(a, b) == IF b <= ZERO THEN a ELSE IF S15 - ExpNeg(b - a) <= 0 THEN ZERO ELSE a + Ln(S15 - ExpNeg(b - a))
RECURSIVE MaxTo(_, _)
MaxTo(q, n) == IF n = 0 THEN ZERO ELSE Max2(MaxTo(q, n - 1), q[n])
RECURSIVE SharesTo(_, _, _)
SharesTo(q, m, n) == IF n = 0 THEN 0 ELSE SharesTo(q, m, n - 1) + ExpNeg(q[n] - m)
LogSum(q) == LET m == MaxTo(q, Len(q)) IN IF m <= ZERO THEN ZERO ELSE m + Ln(SharesTo(q, m, Len(q)))
(* x times a decimal power a/b, exactly rounded down *)
Times(x, a, b) == (x \div b) * a + ((x % b) * a) \div b
LN_G == 228306
LN_PI == 114473
(* ---- waves ---- *)
WindStress(u) == IF u = ZERO THEN ZERO ELSE IF u < 148909 THEN Times(u, 123, 100) - 34249 ELSE u
Unlimited(u) == LET w == WindStress(u) IN IF w = ZERO THEN ZERO ELSE 2 * w - 141469 - LN_G
(* root mean square height raised by the wind u over a fetch; 30 m at most *)
WaveHeight(u, fetch) == LET w == WindStress(u) IN
   IF w = ZERO THEN ZERO ELSE
   Min2(340120, (IF fetch # ZERO /\ fetch < 772665 + 2 * w THEN (fetch - LN_G) \div 2 + w - 643775 ELSE Unlimited(u)) - 34672)
(* is the wind near the point where the fetch begins to limit? the two laws do not meet there *)
AtFetch(u, fetch) == fetch # ZERO /\ WindStress(u) # ZERO /\ Near(fetch, 772665 + 2 * WindStress(u), 30)
PseudoWind(h) == IF h = ZERO THEN ZERO ELSE LET w == (LN_G + h + 141469) \div 2 IN IF w < 148909 THEN Times(w + 34249, 8130, 10000) ELSE w
(* the wind the waves amount to *)
WaveWind(u, given) == IF given.on THEN PseudoWind(given.h) ELSE u
Rms(u, given, fetch) == IF given.on THEN (IF given.h = ZERO THEN ZERO ELSE given.h - 34672) ELSE WaveHeight(u, fetch)
EmulsionWind(u, given) == IF given.on THEN Max2(u, PseudoWind(given.h)) ELSE u
(* salinity in thousandths; ln of the whitecap decay constant *)
Decay(sal) == LET t == ((37429 * sal) \div 1000 + 2540000) \div 10 IN Ln((t * 3 + (t * 2768) \div 10000) \div 10)
Whitecap(u, sal) == IF u = ZERO THEN ZERO ELSE Min2(0, (IF u < 138629 THEN u - 438203 ELSE LogAdd(u, 0) - 460517) - Decay(sal) - LN2)
AtWhitecap(u) == Near(u, 138629, 40)
Energy(h, rhow) == IF h = ZERO THEN ZERO ELSE rhow + LN_G + 2 * h - 568398
(* ---- evaporation ---- *)
(* ln of the decay rate of one component: area, water content, wind, blob, temperature, moles in the element; vapour pressure and molar mass *)
Puddle(a, vf) == Max2(0, LN2 + (a - vf) \div 2 - LN_PI \div 2)
EvapRate(a, dry, u, vf, t, moles, vp, mw) ==
   a + dry + (Times(Max2(u, 0), 78, 100) - 533914) - Puddle(a, vf) \div 9 - 211794 - t - moles + vp + 32228 + (-401738 - mw) \div 3
(* ---- spreading ---- *)
(* thickness at which oil stops spreading, 10^-9 m, for a viscosity in 10^-9 m2/s *)
ThinLimit(v) == IF v >= 100000 THEN 100000 ELSE IF v < 1000 THEN 10000 ELSE 10000 + ((v - 1000) * 9091) \div 10000
SettleTime(vol, nu, buoy) == (vol - nu - LN_G - buoy) \div 3 - 93859
FirstArea(vol, nu, buoy, thin) == Min2(105668 + (5 * vol + LN_G + buoy - 2 * nu) \div 6, vol - thin)
GravityViscous(vol, buoy, nu) == LN_PI + 2 * 37156 + (2 * vol + LN_G + buoy - nu \div 2) \div 3
Grown(a, vf, vol, buoy, nu, dt) ==
   LET blob == a - vf
       fgv == -LN2 + 2 * GravityViscous(vol, buoy, nu) - blob + dt
       dif == 15415 - 18708 + (blob + 18708) \div 7 + dt
   IN LogAdd(a, vf + LogAdd(fgv, dif))
(* the area after a step, or a itself if it may not grow any more *)
Spread(a, vf, vol, buoy, nu, dt, max) == IF a = ZERO \/ a >= max THEN a ELSE Min2(max, Grown(a, vf, vol, buoy, nu, dt))
(* share of its area that oil covers in windrows *)
Coverage(u, thick, buoy) == IF buoy = ZERO THEN -230259 ELSE IF u = ZERO THEN 0 ELSE
   Max2(-230259, Min2(0, (138629 + thick + buoy + LN_G - 2 * (u - 529832) - 2 * LN_PI) \div 3))
(* ---- dispersion, sedimentation ---- *)
(* root: square root of the viscosity in 10^-7 *)
Roy(root) == 778322 - Times(root, 7368, 10000)
Stirred(de, wf) == Times(de, 57, 100) + wf
DispDS(e, de, wf, dt) == Roy(e.root) + Stirred(de, wf) - 1705970 + e.dry + e.a + dt
Thick(e) == e.m - e.d - e.dry - e.a
Droplet(e) == -48939 + Thick(e)
Settled(e, de, wf, h, nu, rhow, sed, dt) ==
   LET th == Thick(e)
       up == 2 * Droplet(e) + LN_G + e.b - 289037 - nu                                   (* e.b: ln(1 - density / that of water) *)
       back == -53103 + LogSub(Times(th, 17, 10), -1681124)
       oil == Roy(e.root) + Stirred(de, wf) + back + e.a + dt - LogAdd(IF e.b = ZERO THEN ZERO ELSE up + dt, h + 40547)
   IN IF sed = ZERO \/ th < -921034 THEN ZERO
      ELSE e.dry + 47000 - 921034 + (h + de + wf - rhow - nu) \div 2 + oil + sed + dt
Stable(e, rhow) == 138629 + (-335241 - LN_G - (rhow + e.b)) \div 2
Weber(e, h, rhow) == rhow + LN_G + (h + 34672) + Stable(e, rhow) + 335241
Ohnesorge(e, rhow) == e.v + e.d - (e.d - 335241 + Stable(e, rhow)) \div 2
DispLi(e, wf, h, rhow, dt) == -220727 + e.m + wf - 2149893 + Times(Weber(e, h, rhow), 1805, 1000) - Times(Ohnesorge(e, rhow), 1023, 1000) + dt
DropletLi(e, h, rhow) == Stable(e, rhow) + 58277 + Times(Ohnesorge(e, rhow), 460, 1000) - Times(Weber(e, h, rhow), 518, 1000)
(* never more than there is *)
Capped(m, d, s) == LET t == LogAdd(d, s) IN IF t > m THEN <<d + m - t, IF s = ZERO THEN ZERO ELSE s + m - t>> ELSE <<d, s>>
(* ---- emulsification ---- *)
(* maximum water content in millionths: ln(y / (1-y)) is given *)
Uptake(u) == IF u = ZERO THEN ZERO ELSE 2 * u + 19227
Surface(ymax) == 179176 + 1381551 + ymax       (* all water in the smallest droplets *)
Starts(age, evap, when, share) == (when >= 0 /\ age >= when) \/ (when < 0 /\ share >= 0 /\ evap >= share)
Since(age, when, bull) == IF when > 0 THEN when ELSE IF bull < 0 THEN age ELSE bull
More(s, k, dt, top, wait) == IF k = ZERO THEN Min2(s, top) ELSE
   LET x == IF wait <= 0 THEN 0 ELSE k - top + Ln(wait) + 15 * LN2
       fade == IF wait <= 0 THEN 0 ELSE IF x > 900000 THEN 90000000 ELSE Exp(x)
   IN Min2(top, LogAdd(s, k + dt - fade))
Content(s, ymax) == LET x == s - 1151293 IN IF s = ZERO THEN ZERO ELSE IF x - 179176 < ymax THEN x - LogAdd(179176, x) ELSE ymax - LogAdd(0, ymax)
(* ---- density, viscosity ---- *)
Thicken(v0) == LET x == v0 \div 2 + 731322 IN IF x < 0 THEN 100000 ELSE IF x > 230259 THEN 1000000 ELSE Exp(x)
(* evap: millionths; wet: ln of the water content *)
Viscosity(v0, evap) == LET k == Thicken(v0) IN v0 + ((k \div 1000) * evap) \div 1000 + ((k % 1000) * (evap \div 1000)) \div 1000
Swollen(wet) == IF wet = ZERO THEN 0 ELSE Times(17143 - LogSub(17143, wet + 17435), 249, 100)
=============================================================================
