------------------------------ MODULE SimTrace ------------------------------
(* validates recorded runs of real models *)
EXTENDS Sim, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, cs, book, run, wr
(* cs[c] = [els, rel]; rel[i] = -1: not known.
   book: what was seen before for a configuration, step and container.
   run: digests of the current run, by step.  wr: per outputter, the steps written in this run *)

Conts(mm) == IF mm.unc THEN {1, 2} ELSE {1}
Fresh(mm) == [c \in {1, 2} |-> [els |-> <<>>, rel |-> [i \in Spills(mm) |-> 0]]]

(* -------- after a call, the observed clock must be the specified one -------- *)
Clock(mm, ev) ==
  Unless(ev.stp = mm.step, "C03.step_number")
  \cup Unless(ev.time = Now(mm), "C03.model_time")
  \cup Unless(ev.nst = NumSteps(mm), "C03.number_of_steps")
  \cup Unless(ev.odt = mm.dt /\ ev.odur = mm.dur /\ ev.ostart = mm.start /\ ev.oback = mm.back, "C03.settings_kept")
  \cup Unless(ev.ounc = mm.unc /\ Len(ev.conts) = Cardinality(Conts(mm)), "C05.uncertain_container_present")
  \cup Unless(\A c \in 1..Len(ev.names) : ev.names[c] = [i \in Spills(mm) |-> mm.spills[i].name], "C05.spills_mirrored")
  \cup Unless(\A c \in 1..Len(ev.ulen) : ev.ulen[c], "C01.arrays_same_length")
  \cup Unless(\A c \in 1..Len(ev.nrel) : ev.nrel[c] = Len(ev.conts[c]), "C01.num_released_is_length")
EmptyAll(ev) == Unless(\A c \in 1..Len(ev.conts) : ev.conts[c] = <<>>, "C03.no_elements_after_rewind")

(* --------------------- elements added by one release --------------------- *)
(* new: the appended elements, in order; rel0: released before; [ta, tb]: the interval *)
OfSpill(els, i) == SelectSeq(els, LAMBDA e : e[2] = i - 1)
Tri(sp, x, y, tol) == (x - sp.s[1]) * ((sp.e[2] - sp.s[2])) - (y - sp.s[2]) * ((sp.e[1] - sp.s[1])) >= -tol
PosOk(mm, i, es, ta, tb) ==
  LET sp == mm.spills[i]
      r == RelOf(mm, i)
      k == Len(es)
  IN CASE sp.kind \in {"line", "point"} ->
            \A j \in 1..k : \A c \in 1..3 : Near(es[j][6 + c], Placed(r, c, ta, tb, k, j), 4)
       [] sp.kind = "grid" -> k = 0 \/
            {<<es[j][7], es[j][8]>> : j \in 1..k}
            = {<<IF sp.nx = 1 THEN sp.s[1] ELSE sp.s[1] + ((sp.e[1] - sp.s[1]) * p) \div (sp.nx - 1),
                 IF sp.ny = 1 THEN sp.s[2] ELSE sp.s[2] + ((sp.e[2] - sp.s[2]) * q) \div (sp.ny - 1)>>
               : p \in 0..(sp.nx - 1), q \in 0..(sp.ny - 1)}
       [] sp.kind = "poly" ->
            \A j \in 1..k : /\ es[j][7] >= sp.s[1] - 1 /\ es[j][7] <= sp.e[1] + 1
                            /\ es[j][8] >= sp.s[2] - 1 /\ es[j][8] <= sp.e[2] + 1
                            /\ es[j][9] = 0
                            /\ Len(sp.rects) = 0 \/ \E q \in 1..Len(sp.rects) : /\ es[j][7] >= sp.rects[q][1] - 1 /\ es[j][7] <= sp.rects[q][3] + 1
                                                                                /\ es[j][8] >= sp.rects[q][2] - 1 /\ es[j][8] <= sp.rects[q][4] + 1
                            /\ sp.tri => Tri(sp, es[j][7], es[j][8], 2 * (Abs(sp.e[1] - sp.s[1]) + Abs(sp.e[2] - sp.s[2])))
       [] OTHER ->
            /\ \A j \in 1..k : \E q \in 1..Len(sp.locs) : sp.locs[q] = <<es[j][7], es[j][8], es[j][9]>>
            /\ \A q \in 1..Len(sp.locs) : Cardinality({j \in 1..k : sp.locs[q] = <<es[j][7], es[j][8], es[j][9]>>}) >= k \div Len(sp.locs)
Counts(mm, i, have, got, tb) ==
  IF ~mm.spills[i].on THEN got = 0
  ELSE have = -1 \/ \E x \in Existing(RelOf(mm, i), tb) : got = Max2(0, x - have)
Appended(mm, c, old, new, rel0, ta, tb) ==
  LET top == IF Len(old) = 0 THEN -1 ELSE old[Len(old)][1] IN
  Unless(\A i \in Spills(mm) : Counts(mm, i, rel0[i], Len(OfSpill(new, i)), tb), "C02.released_count")
  \cup Unless(\A j \in 1..Len(new) : new[j][2] >= 0 /\ new[j][2] < Len(mm.spills), "C01.belongs_to_a_spill")
  \cup Unless(\A i \in Spills(mm) : PosOk(mm, i, OfSpill(new, i), ta, tb), "C02.released_position")
  \cup Unless(\A j \in 1..Len(new) : LET i == new[j][2] + 1 IN
                 i \in Spills(mm) => LET n == RelOf(mm, i).n IN
                 /\ Abs(new[j][5] * n - mm.spills[i].mass * 1000) <= n
                 /\ new[j][6] = new[j][5], "C02.released_mass")
  \cup Unless(\A j \in 1..Len(new) : new[j][3] = InWater /\ new[j][4] = 0, "C01.new_element_state")
  \cup Unless(\A j \in 1..(Len(new) - 1) : new[j][2] <= new[j + 1][2], "C01.spill_order")

(* ids: unique, and never used before in this run *)
Distinct1(els) == \A i, j \in 1..Len(els) : els[i][1] = els[j][1] => i = j
Ids(els) == {els[i][1] : i \in 1..Len(els)}

(* --------------------------- one step, one container --------------------------- *)
(* seen: the elements when the movers were asked (after the first release of the step) *)
StepBad(mm, ev, c, before, rel0, nxt) ==
  LET has == \E i \in 1..Len(ev.seen) : ev.seen[i][1] = c
      seen == IF has THEN ev.seen[CHOOSE i \in 1..Len(ev.seen) : ev.seen[i][1] = c][2] ELSE before
      nb == Len(before)
      after == ev.conts[c]
      prefix == Len(seen) >= nb /\ SubSeq(seen, 1, nb) = before
      new1 == IF prefix THEN SubSeq(seen, nb + 1, Len(seen)) ELSE <<>>
      must == IF mm.rnd THEN {} ELSE {e \in RangeOf(seen) : Inside(mm, Moved(mm, c, e)) >= 3 /\ ~Marked(mm, c, e)}
      gone == {e \in RangeOf(seen) : Marked(mm, c, e) \/ (~mm.rnd /\ Inside(mm, Moved(mm, c, e)) <= -2)}
      \* the survivors are the elements of `after` that were seen, in order
      surv == SelectSeq(after, LAMBDA e : e[1] \in Ids(seen))
      new2 == SelectSeq(after, LAMBDA e : e[1] \notin Ids(seen))
      src == SelectSeq(seen, LAMBDA e : e[1] \in Ids(surv))
      rel1 == [i \in Spills(mm) |-> IF rel0[i] = -1 THEN -1 ELSE rel0[i] + Len(OfSpill(new1, i))]
      t == Now(mm)
  IN Unless(prefix, "C01.rows_kept_until_move")
     \cup Unless(Distinct1(after) /\ Distinct1(seen), "C01.unique_ids")
     \cup Unless(\A e \in RangeOf(new1) \cup RangeOf(new2) : e[1] >= nxt, "C01.ids_not_reused")
     \cup Appended(mm, c, before, new1, rel0, t, t + Half(mm))
     \cup Appended(mm, c, surv, new2, rel1, t + mm.dt - Half(mm), t + mm.dt)
     \cup Unless(after = surv \o new2, "C01.new_elements_last")
     \cup Unless(\A e \in must : e[1] \in Ids(after), "C01.only_marked_elements_removed")
     \cup Unless(\A e \in gone : e[1] \notin Ids(after), "C01.marked_elements_removed")
     \cup Unless(Len(src) = Len(surv) /\ \A i \in 1..Len(surv) : surv[i][1] = src[i][1] /\ surv[i][2] = src[i][2]
                   /\ surv[i][5] = src[i][5] /\ surv[i][6] = src[i][6], "C01.rows_follow_their_element")
     \cup Unless(Len(src) = Len(surv) => \A i \in 1..Len(surv) : surv[i][4] = src[i][4] + Secs(mm), "C03.age_advances_by_the_step")
     \cup Unless((~mm.rnd /\ Len(src) = Len(surv)) =>
                   \A i \in 1..Len(surv) : LET x == Moved(mm, c, src[i]) IN
                      Near(surv[i][7], x[7], 1) /\ Near(surv[i][8], x[8], 1) /\ surv[i][9] = x[9], "C14.moved_by_the_sum_of_active_movers")
     \cup Unless(\A i \in 1..Len(surv) : surv[i][3] = InWater, "C01.survivor_state")

(* any rejected clause of the uncertain container is also one of the mirroring property *)
Twin(c, b) == IF c = 2 /\ b # {} THEN b \cup {"C05.uncertain_twin_evolves_by_the_same_rules"} ELSE b

(* ------------------------------ who was asked ------------------------------ *)
CallsOf(ev, who, ph) == SelectSeq(ev.calls, LAMBDA x : x[1] = who /\ x[2] = ph)
Who(p, i) == p \o ToString(i - 1)
RECURSIVE Contig(_, _, _)
Contig(cl, t, end) == IF cl = <<>> THEN t = end
                      ELSE Head(cl)[4] = t /\ Head(cl)[5] > 0 /\ Contig(Tail(cl), t + Head(cl)[5], end)
FirstIdx(ev, who, ph, c) == CHOOSE i \in 1..Len(ev.calls) : ev.calls[i][1] = who /\ ev.calls[i][2] = ph /\ ev.calls[i][3] = c
AskedStep(mm, ev) ==
  LET t == Now(mm)
      nseen(c) == LET s == {i \in 1..Len(ev.seen) : ev.seen[i][1] = c} IN
                  IF s = {} THEN 0 ELSE Len(ev.seen[CHOOSE i \in s : TRUE][2])
      one(who, ph, c, min) == LET q == SelectSeq(CallsOf(ev, who, ph), LAMBDA x : x[3] = c) IN
                         Len(q) <= 1 /\ Len(q) >= min /\ \A i \in 1..Len(q) : q[i][4] = t /\ q[i][5] = mm.dt
      done(who, c) == Len(SelectSeq(CallsOf(ev, who, "done"), LAMBDA x : x[3] = c)) = 1
  IN Unless(\A j \in 1..Len(mm.movers) : \A c \in Conts(mm) :
               one(Who("m", j), "prep", c, 1) /\ one(Who("m", j), "move", c, IF nseen(c) > 0 THEN 1 ELSE 0)
               /\ done(Who("m", j), c), "C03.every_mover_once_per_step")
     \cup Unless(\A j \in 1..Len(mm.movers) : \A c \in Conts(mm) : (nseen(c) > 0 /\ Len(CallsOf(ev, Who("m", j), "prep")) > 0) =>
               /\ FirstIdx(ev, Who("m", j), "prep", c) < FirstIdx(ev, Who("m", j), "move", c)
               /\ FirstIdx(ev, Who("m", j), "move", c) < FirstIdx(ev, Who("m", j), "done", c), "C03.mover_protocol_order")
     \cup Unless(\A j \in 1..Len(mm.weath) : one(Who("w", j), "prep", 1, 1), "C03.every_weatherer_prepared")
     \cup Unless(\A j \in 1..Len(mm.weath) : LET q == CallsOf(ev, Who("w", j), "weather") IN
               IF mm.dt < 0 THEN q = <<>> ELSE Contig(q, t, t + mm.dt) /\ \A i \in 1..Len(q) : q[i][3] = 1,
               "C03.weathering_covers_the_step")
     \cup Unless(\A j \in 1..Len(mm.weath) : \A x \in RangeOf(ev.calls) :
               (x[1] = Who("w", j) /\ x[2] \in {"prep", "weather"}) => x[3] = 1, "C05.only_certain_elements_weather")
     \cup Unless(\E x \in RangeOf(ev.calls) : x[1] = "e0" /\ x[2] = "prep" /\ x[4] = t, "C03.environment_prepared")
AskedFirst(mm, ev) ==
  Unless(\A j \in 1..Len(mm.movers) : Len(CallsOf(ev, Who("m", j), "run")) = (IF mm.movers[j].on THEN 1 ELSE 0)
           /\ CallsOf(ev, Who("m", j), "move") = <<>>, "C03.prepared_once_per_run")
  \cup Unless(\A j \in 1..Len(mm.weath) : Len(CallsOf(ev, Who("w", j), "run")) = (IF mm.weath[j].on THEN 1 ELSE 0)
           /\ CallsOf(ev, Who("w", j), "weather") = <<>>, "C03.prepared_once_per_run")
AskedEnd(mm, ev) ==
  Unless(/\ \A j \in 1..Len(mm.movers) : mm.movers[j].on => Len(CallsOf(ev, Who("m", j), "post")) >= 1
         /\ \A j \in 1..Len(mm.weath) : mm.weath[j].on => Len(CallsOf(ev, Who("w", j), "post")) >= 1
         /\ Len(CallsOf(ev, "e0", "post")) >= 1, "C03.told_when_complete")
  \cup Unless(\A x \in RangeOf(ev.calls) : x[2] = "post", "C03.nothing_happens_when_complete")

(* ------------------------------ what was written ------------------------------ *)
OutOf(ev, i) == SelectSeq(ev.out, LAMBDA x : x[1] = i)
Outputs(mm, ev, k) ==
  UNION {LET q == OutOf(ev, i)
             w == OutAt(mm, mm.outs[i], k).w
         IN Unless(Len(q) = (IF w THEN 1 ELSE 0), "C09.written_when_due")
            \cup Unless(\A j \in 1..Len(q) : q[j][2] = k, "C09.written_step_number")
            \cup Unless(\A j \in 1..Len(q) : q[j][4] = ev.dg /\ \A c \in 1..Len(q[j][5]) : q[j][5][c] = ev.time, "C10.outputter_sees_this_step")
         : i \in 1..Len(mm.outs)}
OutputsRange(mm, ev, from, to) ==
  UNION {LET q == OutOf(ev, i)
         IN Unless([j \in 1..Len(q) |-> q[j][2]] = Written(mm, mm.outs[i], from, to), "C09.written_when_due")
         : i \in 1..Len(mm.outs)}

(* ------------------------------ reproducibility ------------------------------ *)
(* the same setup gives the same elements at the same step, bit for bit.  Where nothing random decides
   where elements appear or move, the certain elements do not even depend on whether uncertainty is on
   (all but the windages, which are drawn at random whether or not a wind uses them) *)
Key(mm) == [mm EXCEPT !.dur = 0, !.outs = <<>>, !.cache = FALSE]
KeyD(mm) == [Key(mm) EXCEPT !.unc = FALSE]
Det(mm) == ~mm.rnd /\ \A i \in Spills(mm) : mm.spills[i].kind \in {"line", "point", "grid"}
Entries(mm, ev) == {<<<<c, Key(mm)>>, ev.dg[c]>> : c \in 1..Len(ev.dg)}
                   \cup (IF Det(mm) /\ Len(ev.dgd) > 0 THEN {<<<<0, KeyD(mm)>>, ev.dgd[1]>>} ELSE {})
Repro(mm, ev) ==
  UNION {IF e[1] \in DOMAIN book /\ book[e[1]] # e[2]
         THEN {IF e[1][1] = 0 THEN "C05.certain_unaffected_by_uncertainty" ELSE "C04.same_setup_same_results"}
         ELSE {} : e \in Entries(mm, ev)}
Note(mm, ev) == LET es == Entries(mm, ev) IN
                [k \in DOMAIN book \cup {e[1] : e \in es} |->
                   IF k \in DOMAIN book THEN book[k] ELSE (CHOOSE e \in es : e[1] = k)[2]]

(* ---------------------------------- events ---------------------------------- *)
Up(mm, ev) == [mm EXCEPT !.step = ev.stp]
CsOf(mm, ev, rels) == [c \in {1, 2} |-> IF c <= Len(ev.conts) THEN [els |-> ev.conts[c], rel |-> rels[c]]
                                        ELSE [els |-> <<>>, rel |-> [i \in Spills(mm) |-> 0]]]
Unknown(mm) == [c \in {1, 2} |-> [i \in Spills(mm) |-> -1]]
RelAfter(mm, ev, c) ==
  LET seen == {i \in 1..Len(ev.seen) : ev.seen[i][1] = c}
      ids0 == Ids(cs[c].els)
      s == IF seen = {} THEN <<>> ELSE ev.seen[CHOOSE i \in seen : TRUE][2]
      n1(i) == Cardinality({e \in RangeOf(s) : e[2] = i - 1 /\ e[1] \notin ids0})
      n2(i) == Cardinality({e \in RangeOf(ev.conts[c]) : e[2] = i - 1 /\ e[1] \notin (ids0 \cup Ids(s))})
  IN [i \in Spills(mm) |-> IF cs[c].rel[i] = -1 THEN -1 ELSE cs[c].rel[i] + n1(i) + n2(i)]
NextId(c) == LET r == cs[c].rel IN
             IF \E i \in DOMAIN r : r[i] = -1 THEN (IF cs[c].els = <<>> THEN 0 ELSE cs[c].els[Len(cs[c].els)][1] + 1)
             ELSE SumSeq(r)

NoRun == [k \in {} |-> <<>>]
(* result of one event: [b: rejected clauses, m, cs, book, run] *)
R(b, mm, c, bk, rn) == [b |-> b, m |-> mm, cs |-> c, book |-> bk, run |-> rn]
Rewinding(mm, ev) == LET r == Rewound(mm) IN
  R(Clock(r, ev) \cup EmptyAll(ev) \cup Unless(ev.exc = "", "C03.setting_accepted"), Up(r, ev), Fresh(r), book, NoRun)
(* a call that keeps the run going *)
Keeping(mm, ev) ==
  R(Clock(mm, ev) \cup Unless(ev.exc = "", "C03.setting_accepted")
      \cup Unless(\A c \in 1..Len(ev.conts) : ev.conts[c] = cs[c].els, "C03.elements_kept"), mm, cs, book, run)

OnStep(ev) ==
  LET oc == Outcome(m)
      nm == [m EXCEPT !.step = @ + 1]
  IN CASE oc = "refused" ->
            R(Unless(ev.exc # "" /\ ev.exc # "StopIteration", "C03.unusable_setup_refused") \cup Clock(m, ev) \cup EmptyAll(ev),
              Up(m, ev), Fresh(m), book, NoRun)
       [] oc = "complete" ->
            R(Unless(ev.exc = "StopIteration", "C03.stops_after_the_last_step") \cup Clock(m, ev)
                \cup Unless(\A c \in 1..Len(ev.conts) : ev.conts[c] = cs[c].els, "C03.elements_kept")
                \cup Unless(ev.out = <<>>, "C09.nothing_written_after_the_end")
                \cup AskedEnd(m, ev), Up(m, ev), CsOf(m, ev, [c \in {1, 2} |-> cs[c].rel]), book, run)
       [] OTHER ->
            IF ev.exc # "" \/ Len(ev.conts) # Cardinality(Conts(m))
            THEN R({"C03.step_runs"} \cup Clock(nm, ev), Up(nm, ev), CsOf(nm, ev, Unknown(nm)), book, NoRun)
            ELSE LET cl == Clock(nm, ev)
                     stamped == Unless(\A c \in 1..Len(ev.stamp) : ev.stamp[c] = Now(nm), "C03.elements_time_stamped")
                     el == IF m.step = -1
                           THEN AskedFirst(m, ev)
                                \cup UNION {Twin(c, Appended(m, c, <<>>, ev.conts[c], [i \in Spills(m) |-> 0], m.start, m.start)
                                                    \cup Unless(Distinct1(ev.conts[c]), "C01.unique_ids")) : c \in Conts(m)}
                           ELSE AskedStep(m, ev)
                                \cup UNION {Twin(c, StepBad(m, ev, c, cs[c].els, cs[c].rel, NextId(c))) : c \in Conts(m)}
                     rels == [c \in {1, 2} |-> IF c > Len(ev.conts) THEN [i \in Spills(m) |-> 0]
                                               ELSE IF m.step = -1 THEN [i \in Spills(m) |-> Len(OfSpill(ev.conts[c], i))]
                                               ELSE RelAfter(m, ev, c)]
                 IN R(cl \cup stamped \cup el \cup Outputs(nm, ev, nm.step) \cup Repro(nm, ev),
                      Up(nm, ev), CsOf(nm, ev, rels), Note(nm, ev),
                      (nm.step :> ev.dg) @@ run)

Final(mm) == [mm EXCEPT !.step = NumSteps(mm) - 1]
OnFull(ev, from) ==
  IF from.step = -1 /\ ~Startable(from)
  THEN R(Unless(ev.exc # "" /\ ev.exc # "StopIteration", "C03.unusable_setup_refused"), Up(from, ev), Fresh(from), book, NoRun)
  ELSE LET f == IF from.step >= NumSteps(from) THEN from ELSE Final(from) IN
       R(Unless(ev.exc = "", "C03.step_runs") \cup Clock(f, ev) \cup Repro(f, ev)
           \cup OutputsRange(f, ev, from.step + 1, f.step),
         Up(f, ev), CsOf(f, ev, Unknown(f)), Note(f, ev), NoRun)

ModelOf(c) == [start |-> c.start, dt |-> c.dt, dur |-> c.dur, back |-> c.back, unc |-> c.unc, step |-> -1, spills |-> c.spills,
               movers |-> c.movers, weath |-> c.weath, outs |-> c.outs, sub |-> c.sub, box |-> c.box, rnd |-> c.rnd, cache |-> c.cache]

Cached(ev) ==
  UNION {LET k == ev.got[i][1] IN
         IF k \in DOMAIN run
         THEN Unless(ev.got[i][2] = run[k], "C10.cached_step_is_what_was_computed")
              \cup Unless(\A c \in 1..Len(ev.got[i][3]) : ev.got[i][3][c] = m.start + k * m.dt, "C10.cached_time_stamp")
         ELSE IF k >= 0 /\ k <= m.step THEN {}   \* a step of this run that was not recorded one by one
         ELSE Unless(ev.got[i][2] = <<>>, "C10.nothing_cached_for_other_steps")
         : i \in 1..Len(ev.got)}

Do(ev) ==
  CASE ev.op = "new" -> LET mm == ModelOf(ev.cfg) IN R(Clock(mm, ev) \cup EmptyAll(ev), mm, Fresh(mm), <<>>, NoRun)
    [] ev.op = "step" -> OnStep(ev)
    [] ev.op = "rewind" -> Rewinding(m, ev)
    [] ev.op = "set_start" -> Rewinding([m EXCEPT !.start = ev.val], ev)
    [] ev.op = "set_dt" -> Rewinding([m EXCEPT !.dt = ev.val], ev)
    [] ev.op = "set_dur" -> LET mm == [m EXCEPT !.dur = ev.val] IN
         IF m.dt > 0 THEN (IF ev.val < m.dur THEN Rewinding(mm, ev) ELSE Keeping(mm, ev))
         ELSE IF ev.stp = -1 THEN Rewinding(mm, ev) ELSE Keeping(mm, ev)
    [] ev.op = "set_unc" -> IF ev.val = m.unc THEN Keeping(m, ev) ELSE Rewinding([m EXCEPT !.unc = ev.val], ev)
    [] ev.op = "set_back" -> IF ev.val = m.back THEN Keeping(m, ev)
         ELSE Rewinding([m EXCEPT !.back = ev.val, !.dt = -m.dt, !.dur = -m.dur], ev)
    [] ev.op = "add_mover" -> Rewinding([m EXCEPT !.movers = Append(@, ev.mv)], ev)
    [] ev.op = "set_map" -> Rewinding([m EXCEPT !.box = ev.val], ev)
    [] ev.op = "spill_on" -> Rewinding([m EXCEPT !.spills[ev.i + 1].on = ev.val], ev)
    [] ev.op = "add_spill" -> Rewinding([m EXCEPT !.spills = Append(@, ev.sp)], ev)
    [] ev.op = "del_spill" -> Rewinding([m EXCEPT !.spills = SubSeq(@, 1, ev.i) \o SubSeq(@, ev.i + 2, Len(@))], ev)
    [] ev.op = "full" -> OnFull(ev, IF ev.rew THEN Rewound(m) ELSE m)
    [] ev.op = "iter" -> LET r == OnFull(ev, Rewound(m)) IN
         [r EXCEPT !.b = @ \cup Unless(ev.exc # "" \/ ev.nums = [i \in 1..NumSteps(m) |-> i - 1], "C03.iteration_yields_every_step")]
    [] ev.op = "cached" -> R(Cached(ev), m, cs, book, run)
    [] ev.op = "post" -> R(Unless(ev.exc = "", "C09.post_run_output") \cup
                             (LET q == OutOf(ev, ev.num) IN
                              Unless(ev.exc # "" \/ [j \in 1..Len(q) |-> q[j][2]] = Written(m, m.outs[ev.num], 0, m.step), "C09.post_run_follows_the_same_schedule")
                              \cup Unless(\A j \in 1..Len(q) : q[j][2] \in DOMAIN run => q[j][4] = run[q[j][2]], "C10.outputter_sees_this_step")), m, cs, book, run)
    [] OTHER -> R({"C03.unknown_event"}, m, cs, book, run)

Init == l = 1 /\ m = [step |-> -1] /\ cs = <<>> /\ book = <<>> /\ run = NoRun /\ wr = <<>>
Step == /\ l <= Len(Trace)
        /\ LET ev == Trace[l]
               r == Do(ev)
           IN /\ (r.b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(r.b)))
              /\ m' = r.m /\ cs' = r.cs /\ book' = r.book /\ run' = r.run
        /\ l' = l + 1 /\ UNCHANGED wr
Spec == Init /\ [][Step]_<<l, m, cs, book, run, wr>>
==============================================================================
