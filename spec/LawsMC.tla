-------------------------------- MODULE LawsMC --------------------------------
(* one element of oil under waves and wind: its area, water content and mass over a few steps; and the arithmetic itself *)
EXTENDS Laws, TLC
CONSTANTS STEPS, WINDS
VARIABLES u, a, s, age, m, n
vars == <<u, a, s, age, m, n>>
NONE == [on |-> FALSE, h |-> ZERO]
VOL == 0
VF == -200000
THIN == -1000000
BUOY == -200000
YMAX == 219722       (* 0.9 *)
MAX == VF + VOL - THIN
AREA0 == FirstArea(VOL, -1000000, BUOY, THIN) + VF
Init == u \in WINDS /\ a = AREA0 /\ s = ZERO /\ age = 0 /\ m = 0 /\ n = 0
El == [root |-> 31623, dry |-> 0, a |-> a, m |-> m, d |-> 680000, b |-> BUOY, v |-> -1151293]
Dt == 819000          (* ln 3600 *)
Gone == LET wf == Whitecap(u, 35000) h == WaveHeight(u, ZERO) IN
        Capped(m, DispDS(El, Energy(h, 692000), wf, Dt), Settled(El, Energy(h, 692000), wf, h, -1381551, 692000, -500000, Dt))
Next == /\ n < STEPS /\ n' = n + 1 /\ u' \in WINDS /\ age' = age + 3600
        /\ a' = Spread(a, VF, VOL, BUOY, -1381551, Dt, MAX)
        /\ s' = More(s, Uptake(u), Dt, Surface(YMAX), age)
        /\ m' = LogSub(m, LogAdd(Gone[1], Gone[2]))
Spec == Init /\ [][Next]_vars
(* the arithmetic *)
Arithmetic == /\ Near(Ln(Max2(1, (Exp(u \div 4) * 8192) \div 25000)), u \div 4, 80) /\ Near(LogAdd(u, u), u + LN2, 2) /\ Near(LogSub(LogAdd(u, u - 50000), u), u - 50000, 60)
(* spreading never takes back area and stops at the limit; windrows cover between a tenth and all *)
Grows == [][a' >= a /\ a' <= MAX]_vars
Rows == Coverage(u, VOL - a + VF, BUOY) \in -230259..0
(* the water taken up grows to its limit, never beyond *)
Wets == [][s' >= s /\ s' <= Surface(YMAX) /\ Content(s', YMAX) >= Content(s, YMAX)]_vars
Damp == Content(s, YMAX) <= YMAX - LogAdd(0, YMAX) + 60 /\ (s = ZERO => Content(s, YMAX) = ZERO)
(* oil only gets less, and never less than none *)
Shrinks == [][m' <= m]_vars
Enough == LogAdd(Gone[1], Gone[2]) <= m + 60
(* the wind that would raise the waves a wind raises is that wind *)
Inverse == Near(PseudoWind(Unlimited(u)), u, 40)
(* stronger wind, higher waves, more whitecaps; a short fetch keeps waves low *)
Higher == \A w \in WINDS : w > u => WaveHeight(w, ZERO) >= WaveHeight(u, ZERO) /\ Whitecap(w, 35000) >= Whitecap(u, 35000) - 20
Sheltered == WaveHeight(u, 600000) <= WaveHeight(u, ZERO) + 3000
Saltier == Whitecap(u, 35000) <= Whitecap(u, 0)
(* wet oil thickens, evaporated oil thickens *)
Thick2 == Swollen(ZERO) = 0 /\ (\A w \in {-200000, -100000, -50000, -20000} : Swollen(w) > 0 /\ Swollen(w + 5000) > Swollen(w)) /\ Viscosity(-1151293, 300000) > Viscosity(-1151293, 100000)
Thinnest == \A v \in {0, 999, 1000, 5000, 99999, 100000, 1000000} : ThinLimit(v) \in 10000..100000 /\ ThinLimit(v) <= ThinLimit(v + 1)
Volatile == EvapRate(a, 0, u, VF, 566000, 200000, 900000, -230000) > EvapRate(a, 0, u, VF, 566000, 200000, 800000, -230000)
=============================================================================
