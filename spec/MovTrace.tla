------------------------------- MODULE MovTrace -------------------------------
EXTENDS Mov, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, s, last
NOCFG == [kind |-> "none"]
NOLAST == [dt |-> 0, at |-> <<>>]
BIGD == 2000000000
Sane(d) == \A k \in 1..3 : d[k] > -BIGD /\ d[k] < BIGD
Tol(x) == 40 + Abs(x) \div 8000
(* the delta in 10^-8 degrees of latitude both ways *)
Flat(d, lat) == <<MulFrac(d[1], CosT(lat)), d[2], d[3]>>
ShearCm(c, e) == IF m.shear = 0 \/ m.method = "Euler" THEN 0     (* half of what is gained on the way north *)
                 ELSE DS(FineCm(DS(m.shear * CmLat(DriftCm(m.ts[1][3], c.dt)), 2000, 0), c.dt) * m.scale, 10, 0)
Want(c, e) == LET d == Drift(m, e, c.t, c.dt) IN IF m.kind = "current" /\ Sinks(m, e) THEN <<d[1] + ShearCm(c, e), d[2], d[3]>> ELSE d
FlatWant(c, e) == LET d == Want(c, e) IN <<CmLat(d[1]), CmLat(d[2]), d[3]>>
Norm2(v) == (v[1] \div 10) * (v[1] \div 10) + (v[2] \div 10) * (v[2] \div 10)
(* --- uncertain elements --- *)
Wind(c) == IF m.kind = "point" THEN ValueAt(m.ts, c.t) ELSE Carries(m.ts, c.t, c.dt, m.method)
Light(v) == Norm2(v) < 9025
Strong(v) == Norm2(v) > 11025
(* what half a millionth of windage, or the last digit of the velocity, makes *)
Slack(c, e) == IF m.kind \in {"point", "wind"} THEN LET w == FlatWant(c, [e EXCEPT !.w = 1000000]) IN Max2(Abs(w[1]), Abs(w[2])) \div 1500000
               ELSE IF m.kind = "current" THEN (Abs(c.dt) * Max2(Abs(m.scale), 10)) \div 800 ELSE 0     (* 10^-5 m/s *)
Exactly(f, w, x) == Near(f[1], w[1], Tol(w[1]) + x) /\ Near(f[2], w[2], Tol(w[2]) + x) /\ Near(f[3], w[3], 2 + Abs(w[3]) \div 100000)
Frac(a, M) == DS(a, M, 6)
Along(f, w, x) ==      (* the same component along w *)
  LET M == Max2(Abs(w[1]), Abs(w[2])) IN M = 0 \/ Near(MulFrac(f[1] - w[1], Frac(w[1], M)), -MulFrac(f[2] - w[2], Frac(w[2], M)), Tol(w[1]) + Tol(w[2]) + 2 * x + (Abs(f[1]) + Abs(f[2])) \div 8000)
Cross(f, w, x) ==      (* no component across w *)
  LET M == Max2(Abs(w[1]), Abs(w[2])) IN M = 0 \/ Near(MulFrac(f[1], Frac(w[2], M)), MulFrac(f[2], Frac(w[1], M)), Tol(w[1]) + Tol(w[2]) + 2 * x + (Abs(f[1]) + Abs(f[2])) \div 8000)
Onward(f, w) == LET M == Max2(Abs(w[1]), Abs(w[2])) IN M = 0 \/ MulFrac(f[1], Frac(w[1], M)) + MulFrac(f[2], Frac(w[2], M)) >= -(40 + M \div 1000)
Mills(x, f) == MulFrac(x, 1000 * f)
LightReach(c, e) == CmLat(Part(100 * Isqrt(600 * Abs(c.dt)) + 100, Abs(DS(e.w * (IF m.kind = "wind" THEN Abs(m.scale) ELSE 10), 10, 0)))) + 20
UncertainOk(c, e, f, w) ==
  LET el == Elapsed(s, c.t) el2 == Abs(c.t + c.dt - s.start) v == Wind(c) IN
  CASE ~Sinks(m, e) -> Exactly(f, w, Slack(c, e))
    [] m.kind = "current" -> IF el < m.delay THEN Exactly(f, w, Slack(c, e))
         ELSE /\ Near(f[1], w[1], Mills(Abs(w[1]), m.along) + Mills(Abs(w[2]), m.cross) + 2 * Slack(c, e) + Tol(w[1]) + Tol(w[2]))
              /\ Near(f[2], w[2], Mills(Abs(w[2]), m.along) + Mills(Abs(f[1]), m.cross) + 2 * Slack(c, e) + Tol(w[1]) + Tol(w[2])) /\ f[3] = w[3]
    [] m.kind = "simple" -> \A k \in 1..3 : Near(f[k], w[k], Mills(Abs(w[k]), m.us) + (IF k = 3 THEN 2 ELSE Tol(w[k])))
    [] m.kind = "rise" -> Exactly(f, w, Slack(c, e))
    [] m.kind \in {"point", "wind"} ->
         /\ f[3] = 0
         /\ IF el < m.delay /\ el2 < m.delay THEN Exactly(f, w, Slack(c, e))
            ELSE IF (m.kind = "wind" /\ el < m.delay) \/ el2 < m.delay THEN TRUE
            ELSE IF Light(v) THEN Near(f[1], w[1], LightReach(c, e) + Tol(w[1])) /\ Near(f[2], w[2], LightReach(c, e) + Tol(w[2]))
            ELSE IF ~Strong(v) THEN TRUE
            ELSE /\ (m.usp = 0 => Along(f, w, Slack(c, e))) /\ (m.uang = 0 => Cross(f, w, Slack(c, e))) /\ Onward(f, w)
                 /\ ((m.usp = 0 /\ m.uang = 0) => Exactly(f, w, Slack(c, e)))
                 /\ LET M == Max2(Abs(w[1]), Abs(w[2])) IN M > 2000000 \/ (Abs(f[1]) <= 100 * M + 1000 /\ Abs(f[2]) <= 100 * M + 1000)
    [] OTHER -> TRUE
(* --- random walks --- *)
Side(c, e) == CASE m.kind = "random" -> IF m.unc THEN CmLat(10 * Isqrt(DS(6 * m.D * Abs(c.dt) * 1, 10, 0) * m.factor) + 20) ELSE CmLat(Reach(m.D, c.dt))
                [] OTHER -> CmLat(Reach(IF e.z > m.ml THEN m.D2 ELSE m.D, c.dt))
Walks(e) == IF m.kind = "random" THEN Sinks(m, e) ELSE e.st = INWATER /\ (e.z > 0 \/ ~m.surf)
Within(a, b) == Abs(a) <= b + b \div 2000 + 20
FirstStep(c) == ~s.done
InCircle(f, b) == b < 1000 \/ LET x == DS(Abs(f[1]), b, 3) y == DS(Abs(f[2]), b, 3) IN x * x + y * y <= 1012000
DeepOk(c, e, dz) ==
  LET a == Plumb(m.V, c.dt) b == Plumb(m.V2, c.dt) d == dz \div 100 nz == e.z + d IN
  /\ nz >= -1 /\ e.z * 100 + dz >= 0
  /\ IF e.z > m.ml THEN Abs(d) <= b + 2 ELSE (a < m.ml => Abs(d) <= a + b + 3) /\ nz <= Max2(m.ml, a) + b + 3
WalkOk(c, i) ==
  LET e == c.els[i] f == Flat(c.d[i], e.lat) b == Side(c, e) IN
  IF ~Walks(e) THEN c.d[i] = <<0, 0, 0>>
  ELSE /\ Within(f[1], b) /\ Within(f[2], b) /\ (m.kind = "random" => c.d[i][3] = 0)
       /\ (m.kind = "random" /\ FirstStep(c) => InCircle(f, b))
       /\ (m.kind = "random3" => DeepOk(c, e, c.d[i][3]))
(* many elements fill the reach to both sides; nearly never otherwise *)
Group(c, deep) == {i \in 1..Len(c.els) : Walks(c.els[i]) /\ (c.els[i].z > m.ml) = deep}
FillsOk(c, deep) ==
  LET G == IF m.kind = "random" THEN {i \in 1..Len(c.els) : Walks(c.els[i])} ELSE Group(c, deep)
      D == IF deep /\ m.kind = "random3" THEN m.D2 ELSE m.D
      X(i, k) == Flat(c.d[i], c.els[i].lat)[k]
      B(i) == Side(c, c.els[i])
  IN (Cardinality(G) < 36 \/ D = 0) \/
     \A k \in 1..2 : /\ \E i \in G : X(i, k) > B(i) \div 20
                     /\ \E i \in G : X(i, k) < -(B(i) \div 20)
                     /\ \E i \in G : Abs(X(i, k)) > B(i) \div 2
(* --- windages --- *)
Rests(e) == e.pers <= 0 \/ e.pers > 900
DrawOk(e, dt, equal, same) ==
  IF Rests(e) THEN IF equal THEN Near(e.w, e.lo, 1) ELSE e.w = e.w0
  ELSE LET h == Spread(e.lo, e.hi, e.pers, dt) IN Near(2 * e.w, e.lo + e.hi, 2 * (h + h \div 40) + 2)
AllEqual(els) == \A i \in 1..Len(els) : els[i].lo = els[i].hi
WindageOk(c, act) == \A i \in 1..Len(c.els) : IF m.kind \in {"point", "wind"} /\ act THEN DrawOk(c.els[i], c.dt, AllEqual(c.els), 0) ELSE c.els[i].w = c.els[i].w0
(* --- what stays the same from step to step --- *)
Steady(c) == m.kind = "current" /\ m.unc /\ Len(m.ts) = 1 /\ m.shear = 0 /\ last.dt = c.dt
KeepOk(c) ==
  LET K == Keeps(s, c.t, m.delay, m.dur) IN
  \A i \in 1..Len(c.els) : (c.els[i].id \in K /\ c.els[i].st = INWATER) =>
     \A j \in 1..Len(last.at) : last.at[j].id = c.els[i].id => LET f == Flat(c.d[i], c.els[i].lat) IN Near(f[1], last.at[j].f[1], 2 * Tol(f[1])) /\ Near(f[2], last.at[j].f[2], 2 * Tol(f[2]))
NewOk(c) ==          (* drawn again: not all the same *)
  LET J == {j \in 1..Len(last.at) : \E i \in 1..Len(c.els) : c.els[i].id = last.at[j].id /\ c.els[i].st = INWATER}
      I(j) == CHOOSE i \in 1..Len(c.els) : c.els[i].id = last.at[j].id
      big == Max2(Abs(FlatWant(c, [z |-> 0, st |-> INWATER, w |-> 0, rise |-> 0, lat |-> 0])[1]), Abs(FlatWant(c, [z |-> 0, st |-> INWATER, w |-> 0, rise |-> 0, lat |-> 0])[2]))
  IN (Elapsed(s, c.t) < m.delay \/ ~Redraws(s, c.t, m.dur) \/ s.ids = {} \/ Cardinality(J) < 4 \/ m.along < 200 \/ big < 100000)
     \/ \E j \in J : LET f == Flat(c.d[I(j)], c.els[I(j)].lat) IN ~(Near(f[1], last.at[j].f[1], 2 * Tol(f[1])) /\ Near(f[2], last.at[j].f[2], 2 * Tol(f[2])))
StepBad(c) ==
  LET act == Works(c.on, c.r0, c.r1, c.t, c.dt) N == Len(c.els) IN
  Unless(c.active = act, "C23.active_in_its_range")
  \cup Unless(c.same, "C23.asking_alters_nothing")
  \cup Unless(WindageOk(c, act), "C23.windages_persist")
  \cup (IF ~(Len(c.d) = N /\ \A i \in 1..N : Sane(c.d[i])) THEN {"C23.a_delta_for_each"}
        ELSE IF ~act THEN Unless(\A i \in 1..N : c.d[i] = <<0, 0, 0>>, "C23.inactive_moves_nothing")
        ELSE IF m.kind \in {"random", "random3"} THEN Unless(\A i \in 1..N : WalkOk(c, i), "C23.random_within_reach") \cup Unless(FillsOk(c, FALSE) /\ FillsOk(c, TRUE), "C23.random_fills_its_reach")
        ELSE IF ~m.unc THEN Unless(\A i \in 1..N : Exactly(Flat(c.d[i], c.els[i].lat), FlatWant(c, c.els[i]), Slack(c, c.els[i])), "C23.moves_by_its_velocity")
        ELSE Unless(\A i \in 1..N : UncertainOk(c, c.els[i], Flat(c.d[i], c.els[i].lat), FlatWant(c, c.els[i])), "C23.uncertainty_within_bounds")
             \cup (IF Steady(c) /\ act THEN Unless(KeepOk(c), "C23.uncertainty_lasts") \cup Unless(NewOk(c), "C23.uncertainty_is_renewed") ELSE {}))
Bad(c) ==
  CASE c.op = "failed" -> {"C23.failed"}
    [] c.op = "step" -> StepBad(c)
    [] c.op = "warp" -> Unless(c.same, "C23.asking_alters_nothing")
          \cup Unless(\A i \in 1..Len(c.els) : IF c.free THEN c.els[i].lo - 1 <= c.els[i].w /\ c.els[i].w <= c.els[i].hi + 1 ELSE DrawOk(c.els[i], c.dt, AllEqual(c.els), 0), "C23.windages_persist")
    [] OTHER -> {}
Ids(c) == {c.els[i].id : i \in 1..Len(c.els)}
Gone(c) == {c.els[i].id : i \in {j \in 1..Len(c.els) : c.els[j].st = 12}}
SFRESH == [start |-> FOREVER, set |-> 0, ids |-> {}, done |-> FALSE]
SStart(c) == IF c.op = "step" /\ Works(c.on, c.r0, c.r1, c.t, c.dt) THEN Begun(s, c.t) ELSE s
SAfter(c, z) == IF c.op = "step" /\ Works(c.on, c.r0, c.r1, c.t, c.dt) THEN [(IF m.kind = "current" /\ m.unc THEN Drawn(z, c.t, Ids(c), m.delay, m.dur) ELSE z) EXCEPT !.done = TRUE]
             ELSE IF c.op \in {"rewind", "mover"} THEN SFRESH ELSE z
LastAfter(c, b) == IF c.op \in {"rewind", "mover"} \/ b # {} THEN NOLAST ELSE IF c.op = "set" THEN [last EXCEPT !.dt = 0]
   ELSE IF c.op = "step" /\ m.kind = "current" /\ m.unc /\ Works(c.on, c.r0, c.r1, c.t, c.dt)
        THEN [dt |-> c.dt, at |-> SelectSeq([i \in 1..Len(c.els) |-> [id |-> c.els[i].id, st |-> c.els[i].st, f |-> Flat(c.d[i], c.els[i].lat)]], LAMBDA x : x.st = INWATER)]
        ELSE last
MAfter(c) == IF c.op = "mover" THEN c.cfg ELSE IF c.op = "set" /\ c.name # "none" THEN [m EXCEPT ![c.name] = c.val] ELSE m
Init == l = 1 /\ m = NOCFG /\ s = SFRESH /\ last = NOLAST
Read == /\ l <= Len(Trace)
        /\ LET c == Trace[l] z == SStart(c) IN s' = z
        /\ UNCHANGED <<l, m, last>>
(* the start of the run is noted before the step is judged *)
Step == /\ l <= Len(Trace)
        /\ LET c == Trace[l] b == Bad(c)
           IN /\ s = SStart(c)
              /\ (b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b)))
              /\ s' = SAfter(c, s) /\ last' = LastAfter(c, b) /\ m' = MAfter(c)
        /\ l' = l + 1
Next == IF l <= Len(Trace) /\ s # SStart(Trace[l]) THEN Read ELSE Step
Spec == Init /\ [][Next]_<<l, m, s, last>>
=============================================================================
