------------------------------ MODULE LawsTrace ------------------------------
EXTENDS Laws, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, els
FIELDS == {"fate", "m", "c", "a", "f", "vf", "vol", "d", "b", "v", "root", "fw", "dry", "wet", "fe", "fl", "age", "bull", "s", "dr", "cov", "od", "ov", "im", "sp", "u"}
Sane(v) == v > -2000000000 /\ v < 2000000000
Keep(x, y, F) == \A k \in F : x[k] = y[k]
(* the elements a process works on, in order *)
Surf == SelectSeq([i \in 1..Len(els) |-> i], LAMBDA i : els[i].fate = 2 /\ els[i].m # ZERO)
IsSurf(i) == els[i].fate = 2 /\ els[i].m # ZERO
Over(q, F(_)) == [k \in 1..Len(q) |-> F(q[k])]
MG == -1000000
LnInt(n) == Ln(n) + 15 * LN2
Given(c) == [on |-> c.p.on, h |-> c.p.h]
LnThin(n) == LnInt(n) - 2072327
(* a decay that is too fast or too slow to be seen *)
Decays(got, want, tol) == Sane(got) /\ (IF want > 330000 THEN got >= 320000 ELSE IF want < -1800000 THEN got <= -1750000 ELSE Near(got, want, tol))
Same(c) == Len(c.els) = Len(els) /\ \A i \in 1..Len(els) : c.els[i].sp = els[i].sp /\ c.els[i].im = els[i].im
Frame(c, F) == \A i \in 1..Len(els) : Keep(els[i], c.els[i], IF IsSurf(i) THEN FIELDS \ F ELSE FIELDS)
Booked(c, k, want, tol) == want < MG \/ (Sane(c.mb[k]) /\ Near(c.mb[k], want, tol))
NotBooked(c, K) == \A k \in K : c.mb[k] = ZERO
(* --- evaporation --- *)
Moles(e, p) == LogSum([k \in 1..Len(p.mw) |-> e.c[k] - p.mw[k]])
EvapOk(c) == \A i \in 1..Len(els) : IsSurf(i) => LET e == els[i] g == c.els[i] n == Moles(e, c.p) IN
   \A k \in 1..Len(c.p.vp) : e.c[k] = ZERO \/ Decays(g.dec[k], EvapRate(e.a, e.dry, e.u, e.vf, c.p.t, n, c.p.vp[k], c.p.mw[k]) + c.dt, 150)
EvapBooks(c) == /\ \A i \in 1..Len(els) : IsSurf(i) => LET e == els[i] g == c.els[i] IN
                     /\ (g.lost < MG \/ Near(g.gone, g.lost - e.im, 30))
                     /\ Sane(g.m) /\ (Near(g.m, LogSum(g.c), 40) \/ g.m <= -2500000)
                     /\ Near(100000 - (IF g.m <= e.im THEN Exp(g.m - e.im) ELSE 100000), g.fl, 15)
                /\ Booked(c, 1, LogSum(Over(Surf, LAMBDA i : c.els[i].lost)), 90) /\ NotBooked(c, {2, 3})
(* --- spreading --- *)
NuWater == -1381551
FirstOf(s) == CHOOSE i \in 1..Len(els) : IsSurf(i) /\ els[i].sp = s /\ \A j \in 1..(i - 1) : ~(IsSurf(j) /\ els[j].sp = s)
SpreadOk(c) == \A i \in 1..Len(els) : IsSurf(i) => LET e == els[i] g == c.els[i]
       t0 == SettleTime(els[FirstOf(e.sp)].vol, NuWater, c.p.buoy)
       age == LnInt(e.age + c.secs)
       max == e.im - e.d - c.p.thin
       new == Spread(e.f, e.vf, e.vol, c.p.buoy, NuWater, c.dt, max) IN
   /\ Sane(g.f) /\ g.a = g.f
   /\ \/ Near(age, t0, 60) /\ (Near(g.f, new, 60) \/ g.f = e.f)
      \/ age <= t0 /\ g.f = e.f
      \/ age > t0 /\ (Near(g.f, new, 60) \/ (Near(e.f, max, 20) /\ g.f = e.f))
   /\ g.f >= e.f
LangOk(c) == Surf = <<>> \/ LET top == CHOOSE u \in {els[i].u : i \in {j \in 1..Len(els) : IsSurf(j)}} : \A i \in 1..Len(els) : IsSurf(i) => els[i].u <= u IN
   \A i \in 1..Len(els) : IsSurf(i) => LET e == els[i] g == c.els[i]
       thick == els[FirstOf(e.sp)].vol - LogSum(Over(SelectSeq(Surf, LAMBDA j : els[j].sp = e.sp), LAMBDA j : els[j].f)) IN
   /\ Sane(g.cov) /\ (Near(g.cov, Coverage(top, thick, e.b), 100) \/ (top = ZERO /\ e.b = ZERO)) /\ g.cov <= 0 /\ g.cov >= -230260
   /\ Near(g.a, g.f + g.cov, 4)
(* --- waves --- *)
H(u, c) == Rms(u, Given(c), c.p.fetch)
W(u, c) == Whitecap(WaveWind(u, Given(c)), c.p.sal)
DE(u, c) == Energy(H(u, c), c.p.rhow)
Edge(u, c) == (~c.p.on /\ AtFetch(u, c.p.fetch)) \/ AtWhitecap(WaveWind(u, Given(c)))
WavesOk(c) == \A i \in 1..Len(c.u) : LET u == c.u[i] IN
   /\ ((~c.p.on /\ AtFetch(u, c.p.fetch)) \/ Near(c.h[i], H(u, c), 60))
   /\ (c.p.on => IF c.p.h = ZERO THEN c.per[i] = ZERO ELSE Near(c.per[i], 201597 + c.p.h \div 2, 10))
   /\ Near(c.pk[i], IF u = ZERO THEN ZERO ELSE u - 28768, 10)
CapsOk(c) == \A i \in 1..Len(c.u) : LET u == c.u[i] IN
   /\ (AtWhitecap(WaveWind(u, Given(c))) \/ Near(c.wf[i], W(u, c), 120))
   /\ c.wf[i] <= 0
   /\ Near(c.de[i], Energy(c.h[i], c.p.rhow), 20)
EmulWindOk(c) == \A i \in 1..Len(c.u) : Near(c.ew[i], EmulsionWind(c.u[i], Given(c)), 60)
(* --- dispersion --- *)
Want(i, c) == LET e == els[i] wf == W(e.u, c) h == H(e.u, c) de == DE(e.u, c)
                  s == Settled(e, de, wf, h, c.p.nu, c.p.rhow, c.p.sed, c.dt) IN
   IF h = ZERO \/ wf = ZERO THEN <<ZERO, ZERO>>
   ELSE Capped(e.m, IF c.alg = "Li2017" THEN DispLi(e, wf, h, c.p.rhow, c.dt) ELSE DispDS(e, de, wf, c.dt), s)
Unclear(c) == \E i \in 1..Len(els) : IsSurf(i) /\ (Edge(els[i].u, c) \/ (c.alg = "Li2017" /\ els[i].b = ZERO) \/ Near(Thick(els[i]), -921034, 40))
DispOk(c) == Unclear(c) \/ (/\ Booked(c, 2, LogSum(Over(Surf, LAMBDA i : Want(i, c)[1])), 500)
                            /\ Booked(c, 3, LogSum(Over(Surf, LAMBDA i : Want(i, c)[2])), 900))
DispTaken(c) == /\ NotBooked(c, {1})
   /\ LET want == LogAdd(c.mb[2], c.mb[3]) got == LogSum(Over(Surf, LAMBDA i : c.els[i].lost)) IN (Max2(want, got) < MG \/ Near(got, want, 90))
   /\ \A x \in 1..Len(Surf) : LET i == Surf[x] r == c.els[i].m - els[i].m r1 == c.els[Surf[1]].m - els[Surf[1]].m IN
        /\ (Near(r, r1, 6) \/ (r < -2500000 /\ r1 < -2500000))
        /\ \A k \in 1..Len(els[i].c) : els[i].c[k] = ZERO \/ r < -2500000 \/ Near(c.els[i].c[k] - els[i].c[k], r, 6)
DropsOk(c) == \A i \in 1..Len(els) : IsSurf(i) => LET e == els[i] h == H(e.u, c) IN
   IF c.alg = "Li2017" THEN e.b = ZERO \/ h = ZERO \/ Near(c.els[i].dr, DropletLi(e, h, c.p.rhow), 100) \/ Edge(e.u, c)
   ELSE Near(c.els[i].dr, Droplet(e), 30)
(* --- emulsions --- *)
EmulOne(e, g, c) ==
   LET k == Uptake(EmulsionWind(e.u, Given(c)))
       top == Surface(c.p.ymax)
       start == Since(e.age, c.p.when, e.bull)
       begun == /\ Sane(g.s) /\ (Near(g.s, More(e.s, k, c.dt, top, e.age - start), 400) \/ (g.s < 200000 /\ More(e.s, k, c.dt, top, e.age - start) < 200000))
                /\ g.bull = (IF c.p.when > 0 \/ e.bull >= 0 THEN e.bull ELSE e.age)
                /\ (IF g.s = ZERO THEN g.wet = ZERO ELSE Near(g.wet, Content(g.s, c.p.ymax), 80))
       dry == g.s = ZERO /\ g.wet = ZERO /\ g.bull = e.bull
       edge == c.p.when < 0 /\ Near(e.fe, c.p.share, 1) IN
   IF edge THEN begun \/ dry ELSE IF Starts(e.age, e.fe, c.p.when, c.p.share) THEN begun ELSE dry
EmulOk(c) == \A i \in 1..Len(els) : IsSurf(i) => IF c.p.ymax = ZERO THEN Keep(els[i], c.els[i], FIELDS) ELSE EmulOne(els[i], c.els[i], c)
Wetness(c) == Surf = <<>> \/ c.p.ymax = ZERO \/ LET x == LogSum(Over(Surf, LAMBDA i : els[i].m + Max2(-3000000, c.els[i].wet))) - LogSum(Over(Surf, LAMBDA i : els[i].m)) IN
   Near(c.wc, 10 * (IF x > 0 THEN 100000 ELSE Exp(x)), 400)
(* --- density, viscosity --- *)
Mean(c, F(_)) == LET q == SelectSeq([i \in 1..Len(els) |-> i], LAMBDA i : els[i].m # ZERO) IN LogSum(Over(q, LAMBDA i : els[i].m + F(c.els[i]))) - LogSum(Over(q, LAMBDA i : els[i].m))
DensOk(c) == LET k == c.p.r0 - LogSum([i \in 1..Len(c.p.ri) |-> c.p.ri[i] + c.p.fi[i]]) IN
   \A i \in 1..Len(els) : els[i].m = ZERO \/ LET e == els[i] g == c.els[i] IN
      /\ Sane(g.d) /\ Sane(g.od)
      /\ Near(g.od, k + LogSum([j \in 1..Len(c.p.ri) |-> c.p.ri[j] + e.c[j]]) - e.m, 100)
      /\ Near(g.d, Min2(c.p.rhow, LogAdd(IF e.wet = ZERO THEN ZERO ELSE e.wet + c.p.rhow, e.dry + g.od)), 60) /\ g.d <= c.p.rhow
ViscOk(c) == \A i \in 1..Len(els) : LET e == els[i] g == c.els[i] IN
      /\ Sane(g.v) /\ Sane(g.ov) /\ Near(g.ov, Viscosity(c.p.v0, e.fe), 120)
      /\ Near(g.v - g.ov, Swollen(e.wet), IF e.wet > -30000 THEN 600 ELSE 100)
MeansOk(c) == (\A i \in 1..Len(els) : els[i].m = ZERO) \/ (Near(c.avd, Mean(c, LAMBDA e : e.d), 60) /\ Near(c.avv, Mean(c, LAMBDA e : e.v), 100))
HalfOk(c) == \A i \in 1..Len(els) : IsSurf(i) => \A k \in 1..Len(els[i].c) : els[i].c[k] = ZERO \/ Decays(c.els[i].dec[k], -36651 + c.dt - c.hl[k], 30)
B(ok, name) == IF ok THEN {} ELSE {name}
Proc(c) == IF ~Same(c) THEN {"C26.elements"} ELSE IF ~c.on THEN B(Frame(c, {}) /\ NotBooked(c, 1..3), "C26.inactive") ELSE
  CASE c.op = "evap" -> B(Frame(c, {"m", "c", "fe", "fl"}), "C26.frame") \cup B(EvapOk(c), "C26.evaporation") \cup B(EvapBooks(c), "C26.evaporated_share")
    [] c.op = "spread" -> B(Frame(c, {"a", "f"}) /\ NotBooked(c, 1..3), "C26.frame") \cup B(SpreadOk(c), "C26.spreading")
    [] c.op = "lang" -> B(Frame(c, {"a", "cov"}) /\ NotBooked(c, 1..3), "C26.frame") \cup B(LangOk(c), "C26.windrows")
    [] c.op = "disp" -> B(Frame(c, {"m", "c", "dr"}), "C26.frame") \cup B(DispOk(c), "C26.dispersion") \cup B(DispTaken(c), "C26.dispersed_share") \cup B(DropsOk(c), "C26.droplets")
    [] c.op = "emul" -> B(Frame(c, {"fw", "wet", "dry", "s", "bull"}) /\ NotBooked(c, 1..3), "C26.frame") \cup B(EmulOk(c), "C26.emulsification") \cup B(Wetness(c), "C26.water_content")
    [] c.op = "half" -> B(Frame(c, {"m", "c"}) /\ NotBooked(c, 1..3), "C26.frame") \cup B(HalfOk(c), "C26.half_life")
Bad(c) ==
  CASE c.op = "begin" -> B(Near(c.p.thin, LnThin(ThinLimit(c.vthin)), 60), "C26.thinnest")
    [] c.op = "nospill" -> B(c.dens > 960000, "C26.failed")             (* oil that sinks is refused *)
    [] c.op = "failed" -> {"C26.failed"}
    [] c.op = "pushed" -> {}
    [] c.op = "thin" -> B(Near(c.lim, ThinLimit(c.v), 2), "C26.thinnest")
    [] c.op = "first" -> B(Near(c.area, FirstArea(c.vol, c.nu, c.buoy, c.thin), 30), "C26.first_area") \cup B(Near(c.t0, SettleTime(c.vol, c.nu, c.buoy), 30), "C26.settling")
    [] c.op = "langbound" -> B(LET x == (138629 + c.thick + c.buoy + LN_G - 2 * LN_PI) \div 2 + 529832 IN Near(c.lo, x, 20) /\ Near(c.hi, x + 345388, 20), "C26.windrows")
    [] c.op = "waves" -> B(Same(c) /\ Keep([i \in 1..Len(els) |-> els[i]], c.els, 1..Len(els)), "C26.frame") \cup B(WavesOk(c), "C26.waves") \cup B(CapsOk(c), "C26.whitecaps") \cup B(EmulWindOk(c), "C26.emulsion_wind")
    [] c.op = "props" -> IF ~Same(c) THEN {"C26.elements"} ELSE
         B(\A i \in 1..Len(els) : Keep(els[i], c.els[i], FIELDS \ {"d", "od", "b", "v", "ov", "root"}), "C26.frame") \cup B(DensOk(c), "C26.density") \cup B(ViscOk(c), "C26.viscosity") \cup B(MeansOk(c), "C26.means")
    [] OTHER -> Proc(c)
HasEls(c) == c.op \notin {"nospill", "failed", "thin", "first", "langbound"}
(* every number is one *)
Finite(c) == (\A i \in 1..Len(c.els) : (\A k \in FIELDS \ {"c"} : k = "dr" \/ Sane(c.els[i][k])) /\ \A j \in 1..Len(c.els[i].c) : Sane(c.els[i].c[j]))
             /\ (c.op \in {"evap", "spread", "lang", "disp", "emul", "half"} => \A k \in 1..3 : Sane(c.mb[k]))
Judge(c) == IF HasEls(c) /\ ~Finite(c) THEN {"C26.finite"} ELSE Bad(c)
Eff(c) == els' = IF HasEls(c) /\ Finite(c) THEN [i \in 1..Len(c.els) |-> [k \in FIELDS |-> c.els[i][k]]] ELSE els
Step(c) == LET b == Judge(c) IN (IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b))) /\ Eff(c)
Init == l = 1 /\ els = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, els>>
=============================================================================
