------------------------------ MODULE BirthTrace ------------------------------
EXTENDS Birth, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, els, w
NOSUB == [kind |-> "none"]
DRY == [temperature |-> <<30000, "K">>, wave_height |-> <<0, "m">>, fetch |-> <<0, "m">>, sediment |-> <<5000, "kg/m^3">>]
Sane(v) == v > -2000000000 /\ v < 2000000000
(* --- newborn elements --- *)
Temp(c) == IF c.water = <<>> THEN DefaultTemp ELSE c.water[1]
Dense(c) == IF c.water = <<>> THEN DefaultDensity ELSE c.rhow
New(c) == (Len(els) + 1)..Len(c.els)
Own(c) == IF s.kind = "oil" THEN Density(s.oil, Temp(c)) ELSE s.dens
OwnTol(c) == IF s.kind = "oil" THEN DensityTol(s.oil, Temp(c)) ELSE 4
(* nothing is heavier than the water it is released in *)
DensOk(c, d) == Near(d, Min2(Own(c), Dense(c)), OwnTol(c)) /\ d <= Dense(c) + 4
ViscOk(c, v) == s.kind # "oil" \/ ( /\ (Sane(v) /\ Near(v, c.kv, 4))
     /\ (Len(s.oil.visc) = 1 => Near(v, Fit1(c.lnv[1], Temp(c)), 60 + Abs(Temp(c) - c.lnv[1][1]) \div 20))
     /\ (Len(s.oil.visc) = 2 => Near(v, Fit2(c.lnv[1], c.lnv[2], Temp(c)), 300)))
MassOk(e) == s.kind # "oil" \/ (Len(e.mc) = Len(s.oil.frac) /\ \A i \in 1..Len(e.mc) : Near(e.mc[i], MulFrac(e.mass, s.oil.frac[i]), 2 + e.mass \div 100000000))
DropIn(d, x) == CASE d.kind = "uniform" -> d.a * 1000 - 1 <= x /\ x <= d.b * 1000 + 1
                  [] d.kind = "weibull" -> x >= 0 /\ (d.min # NONE => x >= d.min * 1000 - 1) /\ (d.max # NONE => x <= d.max * 1000 + 1)
                  [] OTHER -> TRUE
RiseTol(v, x) == 4 + Abs(v) \div 4000 + (2 * Abs(v)) \div Max2(x, 1)
RiseOk(e) == s.kind # "deep" \/ (Sane(e.rise) /\ DropIn(s.dist, e.drop)
     /\ (e.drop > 20000000 \/ e.drop < 0 \/ LET x == DS(e.drop, 1000, 0) IN x \in {198, 199, 200, 201, 9998, 9999, 10000, 10001} \/ Near(e.rise, Rise(1020000, s.dens, 1000, x), RiseTol(e.rise, x))))
WindOk(e) == /\ e.lo = s.range[1] /\ e.hi = s.range[2] /\ e.pers = s.pers /\ e.lo <= e.w + 1 /\ e.w <= e.hi + 1
Spread(q) == \A k \in 1..3 : Near(q[k], 250000 * k, 180000)
Set(x) == {x[i] : i \in 1..Len(x)}
LogTol(t) == 60 + Abs(t) \div 20
(* --- distributions --- *)
DistOk(c) == LET d == c.d q == Quartiles(d) open == d.min = NONE /\ d.max = NONE IN
   /\ (open => (\A k \in 1..3 : Near(c.th[k], q[k], 2 + Abs(q[k]) \div 100000)))
   /\ (open /\ (d.kind = "weibull" \/ d.b > d.a \/ (d.kind # "uniform" /\ d.b > 0)) => Fair(c.n, c.cnt))
DistIn(c) == LET d == c.d IN /\ Sane(c.min) /\ Sane(c.max) /\ c.finite
   /\ CASE d.kind = "uniform" -> c.min >= 1000 * d.a /\ c.max <= 1000 * d.b
        [] d.kind = "weibull" -> c.min >= 0 /\ (d.min # NONE => c.min >= 1000 * d.min) /\ (d.max # NONE => c.max <= 1000 * d.max) /\ (d.min # NONE /\ d.max # NONE => c.max - c.min <= 1000 * (d.max - d.min))
        [] d.kind = "normal" -> d.b > 0 \/ (c.min = 1000 * d.a /\ c.max = 1000 * d.a)
        [] OTHER -> TRUE
Scattered(c) == (c.d.kind = "weibull" \/ (c.d.kind = "uniform" /\ c.d.b > c.d.a) \/ (c.d.kind \in {"normal", "lognormal"} /\ c.d.b > 0)) => c.distinct = c.n
(* --- oil --- *)
AtOk(o, c, a) == DensityOk(o, a[1], a[2]) /\ (Len(o.visc) = 1 => Near(a[3], Fit1(c.lnv[1], a[1]), 60 + Abs(a[1] - c.lnv[1][1]) \div 20))
                 /\ (Len(o.visc) = 2 => Near(a[3], Fit2(c.lnv[1], c.lnv[2], a[1]), 400))
OilDens(c) == (\A i \in 1..Len(c.at) : Sane(c.at[i][2]) /\ DensityOk(c.o, c.at[i][1], c.at[i][2])) /\ Sane(c.std) /\ DensityOk(c.o, 28815, c.std)
OilVisc(c) == /\ \A i \in 1..Len(c.at) : Sane(c.at[i][3])
              /\ (Len(c.o.visc) = 3 => Balanced(c.lnv, c.fit))
              /\ (Len(c.o.visc) < 3 => \A i \in 1..Len(c.fit) : Near(c.fit[i], c.lnv[i][2], 4))
              /\ \A i \in 1..Len(c.at) : AtOk(c.o, c, c.at[i])
Vapour(c) == /\ c.boil /\ \A i \in 1..(Len(c.vp) - 1) : c.vp[i] > c.vp[i + 1]      (* components in ascending order of their boiling points *)
             /\ \A i \in 1..Len(c.vp) : c.vp2[i] > c.vp[i]                          (* and it rises with temperature *)
(* --- the water --- *)
WaterOk(c) == \A a \in DOMAIN SI : LET si == From(w[a][1], w[a][2]) IN
    /\ Near(c.si[a], si, 1) /\ Near(c.own[a], w[a][1], 1) /\ c.unit[a] = w[a][2]
    /\ \A u \in MEASURES[a] : Near(c.as[a][u], Into(si, u), IF u = "cm" THEN 100 ELSE IF u = "ft" THEN 4 ELSE 3)
Bad(c) ==
  CASE c.op = "begin" -> {}
    [] c.op = "failed" -> {"C24.failed"}
    [] c.op = "sub" -> LET x == Created(c.cfg) IN
         (IF c.range = x.range THEN {} ELSE {"C24.range"}) \cup (IF c.pers = x.pers THEN {} ELSE {"C24.persistence"})
    [] c.op \in {"range", "pers"} ->
         LET ok == IF c.op = "range" THEN c.val = <<>> \/ RangeOk(c.val) ELSE PersOk(c.val)
             nr == IF c.op = "range" /\ ok THEN Ranged(c.val) ELSE s.range
             np == IF c.op = "pers" /\ ok THEN Lasting(c.val) ELSE s.pers IN
         (IF (c.exc = "") = ok /\ (ok \/ c.exc = "ValueError") THEN {} ELSE {"C24.refused"})
         \cup (IF c.range = nr THEN {} ELSE {"C24.range"}) \cup (IF c.pers = np THEN {} ELSE {"C24.persistence"})
    [] c.op = "rel" ->
         (IF Len(c.els) = Len(els) + c.n THEN {} ELSE {"C24.number"})
         \cup (IF Len(c.els) >= Len(els) /\ SubSeq(c.els, 1, Len(els)) = els THEN {} ELSE {"C24.others"})
         \cup (IF \A i \in New(c) : WindOk(c.els[i]) THEN {} ELSE {"C24.windage"})
         \cup (IF \A i \in New(c) : DensOk(c, c.els[i].dens) THEN {} ELSE {"C24.density"})
         \cup (IF \A i \in New(c) : ViscOk(c, c.els[i].visc) THEN {} ELSE {"C24.viscosity"})
         \cup (IF \A i \in New(c) : MassOk(c.els[i]) THEN {} ELSE {"C24.components"})
         \cup (IF \A i \in New(c) : c.els[i].fate = Fate(s, c.z) THEN {} ELSE {"C24.fate"})
         \cup (IF \A i \in New(c) : RiseOk(c.els[i]) THEN {} ELSE {"C24.droplet"})
    [] c.op = "sinks" -> IF s.kind = "oil" /\ (Own(c) >= Dense(c) - OwnTol(c) - 10 \/ Density(s.oil, 28815) >= Dense(c) - 200) THEN {} ELSE {"C24.number"}      (* oil that sinks may be refused *)
    [] c.op = "crowd" -> IF c.lo = s.range[1] /\ c.hi = s.range[2] /\ c.lo <= c.min + 1 /\ c.max <= c.hi + 1 /\ (c.lo = c.hi \/ Spread(c.q)) THEN {} ELSE {"C24.windage"}
    [] c.op = "dist" -> (IF DistIn(c) THEN {} ELSE {"C24.bounds"}) \cup (IF DistOk(c) /\ Scattered(c) THEN {} ELSE {"C24.law"})
    [] c.op = "baddist" -> IF c.exc = (IF c.what \in {"nolow", "nohigh", "nomean", "nosigma", "nolmean", "noalpha", "riseNone", "dropNone"} THEN "TypeError" ELSE "ValueError") THEN {} ELSE {"C24.parameters"}
    [] c.op = "rise" -> IF \A i \in 1..Len(c.d) : Sane(c.v[i]) /\ LET x == c.d[i] r == Rise(x[1], x[2], x[3], x[4]) IN Near(c.v[i], r, 6 + Abs(r) \div 3000 + (2 * Abs(r)) \div Max2(1, Abs(Buoy(x[1], x[2])))) THEN {} ELSE {"C24.rise"}
    [] c.op = "oil" -> (IF OilDens(c) THEN {} ELSE {"C24.measured"}) \cup (IF OilVisc(c) THEN {} ELSE {"C24.fit"}) \cup (IF c.each THEN {} ELSE {"C24.elementwise"})
         \cup (IF Vapour(c) THEN {} ELSE {"C24.vapour"})
    [] c.op = "rayleigh" -> IF Near(c.cdf, 1000 * c.f, 5) /\ Near(c.med, DS(c.speed * 93944, 100, 0), 2 + c.speed * 10) /\ Near(c.area, 1000000, 2000) THEN {} ELSE {"C24.law"}
    [] c.op = "fraction" -> IF c.lo = 0 /\ Near(c.at, 632121, 2) /\ Near(c.surv, c.surv2, 3) /\ c.mono THEN {} ELSE {"C24.law"}
    [] c.op = "wset" -> IF c.exc = "" THEN {} ELSE {"C24.water"}
    [] c.op = "wunit" -> IF (c.exc = "") = (c.unit \in MEASURES[c.attr]) THEN {} ELSE {"C24.water"}
    [] c.op = "water" -> (IF WaterOk(c) /\ c.everywhere THEN {} ELSE {"C24.water"}) \cup (IF c.dens = c.dens2 THEN {} ELSE {"C24.water"})
Eff(c) ==
  /\ s' = CASE c.op = "begin" -> NOSUB
            [] c.op = "sub" -> Created(c.cfg)
            [] c.op = "range" -> IF c.val = <<>> \/ RangeOk(c.val) THEN [s EXCEPT !.range = Ranged(c.val)] ELSE s
            [] c.op = "pers" -> IF PersOk(c.val) THEN [s EXCEPT !.pers = Lasting(c.val)] ELSE s
            [] OTHER -> s
  /\ els' = CASE c.op \in {"begin", "sub"} -> <<>> [] c.op = "rel" -> c.els [] OTHER -> els
  /\ w' = CASE c.op = "begin" -> DRY
            [] c.op = "wset" -> [w EXCEPT ![c.attr] = <<Into(c.val, c.unit), c.unit>>]
            [] c.op = "wunit" -> IF c.unit \in MEASURES[c.attr] THEN [w EXCEPT ![c.attr] = <<w[c.attr][1], c.unit>>] ELSE w
            [] OTHER -> w
Step(c) == LET b == Bad(c) IN (IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b))) /\ Eff(c)
Init == l = 1 /\ s = NOSUB /\ els = <<>> /\ w = DRY
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s, els, w>>
=============================================================================
