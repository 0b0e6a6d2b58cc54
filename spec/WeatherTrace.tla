---------------------------- MODULE WeatherTrace ----------------------------
(* validates recorded steps of weathering models against the ledger *)
EXTENDS Weather, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, prev, mb, seen, quiet, full
(* g: the configuration; prev: elements per container after the last step; mb: balance;
   seen: initial masses booked as released; quiet: nothing beached, dived or left so far;
   full: kinds of cleanup that started when all oil was already spilled *)
vars == <<l, g, prev, mb, seen, quiet, full>>
Ids(s) == {s[i].id : i \in 1..Len(s)}
Get(s, id) == s[CHOOSE i \in 1..Len(s) : s[i].id = id]
Ws(ev) == {g.ws[i] : i \in 1..Len(g.ws)}
HasOn(k) == \E i \in 1..Len(g.ws) : g.ws[i].k = k /\ g.ws[i].on
W(k) == g.ws[CHOOSE i \in 1..Len(g.ws) : g.ws[i].k = k]
Emul == HasOn("emul")
Kinds == {"evap", "disp", "skim", "burn", "chem", "beach"}
(* masses are single precision numbers *)
Eps(x) == 5 + x \div 1000000
Tol(x) == 200 + x \div 50000
(* may the process act in the step [t, t + ts] *)
Touches(k, t) == HasOn(k) /\ ~g.back /\ (IF k = "burn" /\ Emul THEN t + g.ts > W(k).a0 ELSE Overlap(t, g.ts, W(k).a0, W(k).a1) > 0)
(* mass of the element before this step's weathering *)
Before(p, e) == IF e.id \in Ids(p) THEN Get(p, e.id).m ELSE e.im
FwBefore(p, e) == IF e.id \in Ids(p) THEN Get(p, e.id).fw ELSE 0
Of(s, P(_)) == SelectSeq(s, P)
SumF(s, F(_)) == SumSeq([i \in 1..Len(s) |-> F(s[i])])
G(x) == x \div 1000

(* nothing has beached, dived or left up to the end of this step *)
StillQuiet(ev) == /\ quiet
                  /\ \A i \in 1..Len(prev[1]) : prev[1][i].id \in Ids(ev.conts[1])
                  /\ \A i \in 1..Len(ev.conts[1]) : ev.conts[1][i].st = WaterS /\ ev.conts[1][i].z = 0

(* ---- conservation ---- *)
Ledger(ev) ==
  LET e == ev.conts[1]
      p == prev[1]
      b == ev.mb
      n == Len(e)
      mass == SumF(e, LAMBDA x : x.m)
      fresh == Of(e, LAMBDA x : x.id \notin Ids(p))
      old == Of(e, LAMBDA x : x.id \in Ids(p))
      can(x) == MayTake(x.f) \cap {k \in Kinds : Touches(k, ev.t)}
      w0 == Of(e, LAMBDA x : x.st = WaterS /\ x.z = 0)
      w1 == Of(w0, LAMBDA x : x.new = 0)
      nw == Of(e, LAMBDA x : x.f = NonW)
      ld == Of(e, LAMBDA x : x.st = LandS)
      m(x) == x.m
  IN Unless(Near(b[1], mass + b[2] + b[3] + b[4] + b[5] + b[6] + b[7] + b[8] + b[9], Tol(b[1])), "C06.mass_is_conserved")
     \cup Unless(Near(b[1], seen + SumF(fresh, LAMBDA x : x.im), Tol(b[1])), "C06.released_amount_is_what_the_elements_started_with")
     \cup Unless(\A i \in 1..n : g.weatherable => Near(e[i].m, SumSeq(e[i].c), 20 + e[i].m \div 100000), "C06.element_mass_is_the_sum_of_its_components")
     \cup Unless(\A i \in 1..n : e[i].m >= 0 /\ \A j \in 1..Len(e[i].c) : e[i].c[j] >= 0, "C06.no_negative_mass")
     \cup Unless(\A i \in 1..Len(old) : LET q == Get(p, old[i].id) IN
                    old[i].m <= q.m + Eps(q.m) /\ \A j \in 1..Len(q.c) : old[i].c[j] <= q.c[j] + Eps(q.m), "C06.weathering_only_removes_mass")
     \cup Unless(\A i \in 1..Len(fresh) : fresh[i].new = 1 => Near(fresh[i].m, fresh[i].im, Eps(fresh[i].im)), "C06.new_elements_have_their_initial_mass")
     \cup Unless(\A i \in 2..9 : b[i] >= mb[i], "C06.booked_losses_never_shrink")
     \cup Unless(\A k \in Kinds : ~Touches(k, ev.t) => \A i \in Buckets(k) : b[i] = mb[i], "C06.only_active_processes_take_mass")
     \cup Unless(\A i \in 1..n : (e[i].new = 0 /\ can(e[i]) = {}) => Near(e[i].m, Before(p, e[i]), Eps(e[i].m)), "C18.only_elements_whose_fate_allows_it_lose_mass")
     \cup Unless(Near(b[10], SumF(w0, m), Tol(b[1])) \/ Near(b[10], SumF(w1, m), Tol(b[1])), "C06.floating_is_the_mass_on_the_water")
     \cup Unless(Near(b[11], SumF(nw, m), Tol(b[1])), "C06.non_weathering_is_the_mass_that_does_not_weather")
     \cup Unless(\A i \in 1..n : e[i].fw >= 0 /\ e[i].fw <= g.ymax + 2, "C06.water_content_within_bounds")
     \cup Unless(\A i \in 1..n : ~Emul => e[i].fw = 0, "C06.water_content_within_bounds")
Twin(ev) ==
  IF Len(ev.conts) < 2 THEN {}
  ELSE LET e == ev.conts[2] IN
    Unless(\A i \in 1..Len(e) : Near(e[i].m, e[i].im, Eps(e[i].im)) \/ e[i].im = 0, "C06.uncertain_elements_do_not_weather")

(* ---- fates ---- *)
FateOk(e) ==
  IF ~g.weatherable THEN e.f = NonW
  ELSE IF e.new = 1 THEN e.f = (IF e.z = 0 THEN Surf ELSE Subs) \/ (e.st = LandS /\ e.f = NonW)
  ELSE IF e.st = LandS THEN e.f = NonW
  ELSE e.f \in {IF e.z = 0 THEN Surf ELSE Subs} \cup Marks
Fate(ev) ==
  LET c == ev.conts
      marked(f) == \E i \in 1..Len(c[1]) : c[1][i].f = f
      started(k) == HasOn(k) /\ ev.t + g.ts > W(k).a0
  IN Unless(\A j \in 1..Len(c) : \A i \in 1..Len(c[j]) : FateOk(c[j][i]), "C18.fate_follows_place")
     \cup Unless((marked(SkimF) => started("skim")) /\ (marked(BurnF) => started("burn")) /\ (marked(DispF) => started("chem")), "C18.marked_only_by_running_cleanup")
     \cup Unless(Len(c) < 2 \/ \A i \in 1..Len(c[2]) : c[2][i].f \notin Marks, "C18.uncertain_elements_are_not_marked")
     \cup Unless(\A i \in 1..Len(c[1]) : LET x == c[1][i] IN
           (x.new = 0 /\ x.id \in Ids(prev[1]) /\ Get(prev[1], x.id).f \in Marks /\ x.st = WaterS) => x.f \in Marks, "C18.marks_stay_until_the_element_beaches")

(* ---- cleanup ---- *)
MarkOf(k) == CASE k = "skim" -> SkimF [] k = "burn" -> BurnF [] OTHER -> DispF
Bucket(k) == CASE k = "skim" -> 5 [] k = "burn" -> 6 [] OTHER -> 7
Slack(k, x) == 3 + (IF k = "burn" THEN x \div 50 ELSE x \div 2000)
CleanOne(ev, k) ==
  LET e == ev.conts[1]
      p == prev[1]
      w == W(k)
      b == Bucket(k)
      inc == G(ev.mb[b]) - G(mb[b])
      ov == Overlap(ev.t, g.ts, w.a0, w.a1)
      due == Share(G(w.total), ov, w.a1 - w.a0)
      tk == Of(e, LAMBDA x : x.new = 0 /\ x.f = MarkOf(k))
      avail == SumF(tk, LAMBDA x : G(Before(p, x)))
      fwmax == IF Len(tk) = 0 THEN 0 ELSE LET s == {FwBefore(p, tk[i]) : i \in 1..Len(tk)} IN CHOOSE x \in s : \A y \in s : y <= x
      wet == Emul
      want == Min2(due, avail)
      surf == SumF(Of(e, LAMBDA x : x.new = 0 /\ x.st = WaterS /\ x.f \in {Surf, MarkOf(k)}), LAMBDA x : G(Before(p, x)))
      others == {q \in Kinds \ {k} : Touches(q, ev.t)}
      alone == \A q \in {"skim", "burn", "chem", "beach", "evap", "disp"} \ {k} : ~HasOn(q)
  IN IF ~HasOn(k) \/ g.back THEN {}
     ELSE Unless(G(ev.mb[b]) <= G(w.total) + Slack(k, G(w.total)), "C19.never_removes_more_than_planned")
          \cup Unless(wet \/ ~g.weatherable \/ Near(inc, want, Slack(k, want) + Len(tk)), "C19.removes_its_share_for_the_time_it_works")
          \cup Unless(~wet \/ inc <= want + Slack(k, want) + Len(tk) \/ k = "burn", "C19.removes_its_share_for_the_time_it_works")
          \cup Unless(~(wet /\ k = "skim" /\ g.weatherable) \/ inc >= Min2((due \div 1000) * ((1000000 - fwmax) \div 1000), avail) - 1000, "C19.removes_its_share_for_the_time_it_works")
          \cup Unless(~(StillQuiet(ev) /\ ~wet /\ g.weatherable /\ alone /\ ov > 0 /\ k \in full /\ surf > G(w.total) + 10) \/ avail >= due - 5, "C19.enough_oil_is_marked")
          \cup Unless(\A i \in 1..Len(tk) : ~(k \in {"burn", "chem"} /\ avail > 1000) \/
                 LET q == G(Before(p, tk[i])) IN inc >= 0 => Near(G(tk[i].m), q - (q * ((inc * 1000) \div avail)) \div 1000, 5 + q \div (IF others = {} THEN 200 ELSE 20)), "C19.marked_elements_lose_alike")
Clean(ev) ==
  UNION {CleanOne(ev, k) : k \in {"skim", "burn", "chem"}}
  \cup (IF ~HasOn("beach") \/ g.back THEN {}
        ELSE LET w == W("beach")
                 due == SeriesFrom(w.ser, 1, w.a0, ev.t, g.ts)
                 inc == G(ev.mb[8]) - G(mb[8])
                 e == ev.conts[1]
                 tk == Of(e, LAMBDA x : x.new = 0 /\ x.f \in {Surf, SkimF})
                 avail == SumF(tk, LAMBDA x : G(Before(prev[1], x)))
                 left == SumF(tk, LAMBDA x : G(x.m))
             IN Unless(~g.weatherable \/ (inc <= due + 5 /\ (inc >= due - 5 \/ left <= 5 + avail \div 1000)), "C19.observed_beaching_follows_its_series"))

Bad(ev) == CASE ev.op = "wstep" -> IF g.back /\ g.weatherable THEN {"C06.backward_runs_refuse_to_weather"}
                                   ELSE IF ev.k <= 0 THEN {} ELSE Ledger(ev) \cup Twin(ev) \cup Fate(ev) \cup Clean(ev)
             [] ev.op = "wfail" /\ g.back /\ g.weatherable /\ ev.exc = "GnomeRuntimeError" -> {}
             [] ev.op = "wfail" -> {"C06.steps_complete", "C18.steps_complete", "C19.steps_complete"}
             [] OTHER -> {}
Zero == [i \in 1..12 |-> 0]
Init == l = 1 /\ g = <<>> /\ prev = <<<<>>, <<>>>> /\ mb = Zero /\ seen = 0 /\ quiet = TRUE /\ full = {}
Step == /\ l <= Len(Trace)
        /\ LET ev == Trace[l]
               bad == Bad(ev)
           IN /\ l' = l + 1
              /\ bad = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(bad))
              /\ g' = IF ev.op = "wcfg" THEN ev ELSE IF ev.op = "wrewind" THEN [g EXCEPT !.ws = ev.ws] ELSE g
              /\ IF ev.op = "wstep"
                 THEN /\ prev' = IF Len(ev.conts) = 1 THEN <<ev.conts[1], <<>>>> ELSE ev.conts
                      /\ mb' = ev.mb
                      /\ seen' = (IF ev.k <= 0 THEN 0 ELSE seen) + SumF(Of(ev.conts[1], LAMBDA x : ev.k <= 0 \/ x.id \notin Ids(prev[1])), LAMBDA x : x.im)
                      /\ quiet' = StillQuiet(ev)
                      /\ full' = full \cup {k \in {"skim", "burn", "chem"} : HasOn(k) /\ ev.t + 2 * g.ts <= W(k).a0 + g.ts /\ Near(ev.mb[1], g.spilled, 2000)}
                 ELSE /\ prev' = <<<<>>, <<>>>> /\ mb' = Zero /\ seen' = 0 /\ quiet' = TRUE /\ full' = {}
Spec == Init /\ [][Step]_vars
==============================================================================
