--------------------------------- MODULE Sim ---------------------------------
(* The simulation: a clock, the spills, and a certain and (optionally) an uncertain
   container of elements that every step releases into, moves, weathers, ages and
   removes from.   C01 C02 C03 C04 C05 C09 C10 C14.

   Times in half seconds, positions in micro-degrees.
   m is the model's configuration and clock:
     [start, dt, dur, back, unc, step, spills, movers, weath, outs, sub, box, rnd, cache]
   An element is <<id, spill, status, age, mass, initial mass, x, y, z>>. *)
EXTENDS Release

None0 == -999999999
InWater == 2

(* ------------------------------- the clock ------------------------------- *)
NumSteps(m) == 1 + (Abs(m.dur) \div Abs(m.dt))
Now(m) == IF m.step < 0 THEN m.start ELSE m.start + m.step * m.dt
Half(m) == m.dt \div 2
Secs(m) == Abs(m.dt) \div 2

RelOf(m, i) == LET sp == m.spills[i]
                   k == Intervals(sp.d, Abs(m.dt))
               IN [t0 |-> sp.t0, d |-> sp.d, k |-> k, n |-> IF sp.npt > 0 THEN sp.npt * k ELSE sp.n,
                   ts |-> Abs(m.dt), back |-> m.dt < 0, s |-> sp.s, e |-> sp.e]
Spills(m) == 1..Len(m.spills)

(* a run may start only if every spill that is on starts at or after the model does, in the direction of
   the run, has at least one element per interval, and is not continuous in a backward run *)
Startable(m) == \A i \in Spills(m) : m.spills[i].on =>
                   LET r == RelOf(m, i) IN
                   /\ (IF m.dt < 0 THEN r.t0 <= m.start /\ r.d = 0 ELSE r.t0 >= m.start)
                   /\ r.n >= r.k
Outcome(m) == IF m.step = -1 THEN (IF Startable(m) THEN "runs" ELSE "refused")
              ELSE IF m.step >= NumSteps(m) - 1 THEN "complete" ELSE "runs"

Rewound(m) == [m EXCEPT !.step = -1]

(* ------------------------------ the movers ------------------------------ *)
Active(p, m) == p.on /\ (p.r0 = None0 \/ p.r0 <= Now(m) + Half(m))
                     /\ (p.r1 = None0 \/ p.r1 >= Now(m) + Half(m))
Delta(m, c, e, ax) ==
  SumSeq([j \in 1..Len(m.movers) |->
     IF Active(m.movers[j], m)
     THEN LET v == IF ax = 1 THEN m.movers[j].x ELSE m.movers[j].y
          IN v[1] + v[2] * (e[1] % 3) + (IF c = 2 THEN v[3] ELSE 0)
     ELSE 0])
Moved(m, c, e) == [e EXCEPT ![7] = @ + Delta(m, c, e, 1), ![8] = @ + Delta(m, c, e, 2)]
(* distance (in micro-degrees, at most 9) inside the map's box; negative: outside *)
Depth1(lo, hi, v) == Min2(v - lo, hi + 1 - v)
Inside(m, e) == Min2(Depth1(m.box[1], m.box[3], e[7]), Depth1(m.box[2], m.box[4], e[8]))
(* marked for removal by a weatherer: only certain elements are weathered, and only in forward runs *)
Marked(m, c, e) == c = 1 /\ m.dt > 0
                   /\ \E w \in RangeOf(m.weath) : w.on /\ w.mark > 0 /\ (e[1] + e[4] \div 60) % w.mark = 0
Aged(m, e) == [e EXCEPT ![4] = @ + Secs(m)]

(* ----------------------------- the outputters ----------------------------- *)
OutInit == [since |-> 0, first |-> TRUE]
(* the decision for step k (at time t) and the outputter's state after it *)
OutStep(m, o, st, k, t) ==
  LET sgn == IF m.dt < 0 THEN -1 ELSE 1
      late == o.ostart # None0 /\ o.ostart # m.start
      last == k = NumSteps(m) - 1 /\ o.last
      reg == IF o.single THEN [w |-> FALSE, s |-> st]
             ELSE IF o.ots = 0 THEN [w |-> TRUE, s |-> st]
             ELSE LET sn == st.since + Abs(m.dt)
                  IN IF sn >= o.ots THEN [w |-> TRUE, s |-> [st EXCEPT !.since = sn % o.ots]]
                     ELSE [w |-> FALSE, s |-> [st EXCEPT !.since = sn]]
      r == IF k = 0 THEN [w |-> o.zero \/ (o.single /\ ~late), s |-> OutInit]
           ELSE IF late /\ sgn * (o.ostart - t) > 0 THEN [w |-> FALSE, s |-> st]
           ELSE IF late /\ st.first THEN [w |-> TRUE, s |-> [st EXCEPT !.first = FALSE]]
           ELSE reg
  IN [w |-> o.on /\ (r.w \/ last), s |-> r.s]
RECURSIVE OutAt(_, _, _)
OutAt(m, o, k) == IF k = 0 THEN OutStep(m, o, OutInit, 0, m.start)
                  ELSE OutStep(m, o, OutAt(m, o, k - 1).s, k, m.start + k * m.dt)
Written(m, o, from, to) == SelectSeq([i \in 1..(to - from + 1) |-> from + i - 1], LAMBDA k : OutAt(m, o, k).w)

(* ------------------ one container, exactly, for model checking ------------------ *)
(* c = [els, rel (released so far, per spill), next (next id)] *)
EmptyCont(m) == [els |-> <<>>, rel |-> [i \in Spills(m) |-> 0], next |-> 0]
NewEls(m, i, first, k, ta, tb) ==
  LET r == RelOf(m, i) IN
  [j \in 1..k |-> <<first + j - 1, i - 1, InWater, 0, 0, 0, Placed(r, 1, ta, tb, k, j), Placed(r, 2, ta, tb, k, j), 0>>]
RECURSIVE ReleaseFrom(_, _, _, _, _)
ReleaseFrom(m, c, i, ta, tb) ==
  IF i > Len(m.spills) THEN c
  ELSE LET due == IF m.spills[i].on THEN Max2(0, Exact(RelOf(m, i), tb) - c.rel[i]) ELSE 0
       IN ReleaseFrom(m, [els |-> c.els \o NewEls(m, i, c.next, due, ta, tb),
                          rel |-> [c.rel EXCEPT ![i] = @ + due], next |-> c.next + due], i + 1, ta, tb)
RelAll(m, c, ta, tb) == ReleaseFrom(m, c, 1, ta, tb)
StepCont(m, ci, c) ==
  IF m.step = -1 THEN RelAll(m, EmptyCont(m), m.start, m.start)
  ELSE LET a == RelAll(m, c, Now(m), Now(m) + Half(m))
           kept == SelectSeq(a.els, LAMBDA e : Inside(m, Moved(m, ci, e)) >= 1 /\ ~Marked(m, ci, e))
           b == [a EXCEPT !.els = [i \in 1..Len(kept) |-> Aged(m, Moved(m, ci, kept[i]))]]
           t == Now(m) + m.dt
       IN RelAll(m, b, t - Half(m), t)
==============================================================================
