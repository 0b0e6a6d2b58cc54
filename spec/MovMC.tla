--------------------------------- MODULE MovMC ---------------------------------
(* the life of uncertainties under steps, releases, removals, idle steps and rewinds; and the displacements on small values *)
EXTENDS Mov
CONSTANTS MAXT, MAXID, DTS
VARIABLES s, t, dt, alive, drawn, next, delay, dur, v
vars == <<s, t, dt, alive, drawn, next, delay, dur, v>>
Speeds == {-1500, 0, 7, 20000}
Init == /\ s = FRESH /\ t = 0 /\ alive = {} /\ drawn = <<>> /\ next = 1
        /\ dt \in {60 * k : k \in DTS} /\ delay \in {0, 120} /\ dur \in {60, 180} /\ v \in Speeds \X Speeds
(* when each of ids was drawn, counted from the start *)
Dates(o, n, ids) == [i \in ids |-> IF i \in Keeps(o, t, delay, dur) /\ i \in DOMAIN drawn THEN drawn[i] ELSE Elapsed(n, t)]
Step(d) == /\ Abs(t) < MAXT
        /\ LET o == Begun(s, t) n == Drawn(o, t, alive, delay, dur) IN
             /\ s' = n
             /\ drawn' = IF Elapsed(o, t) < delay THEN drawn ELSE Dates(o, n, alive)
        /\ t' = t + d /\ dt' = d /\ UNCHANGED <<alive, next, delay, dur, v>>
Idle == /\ Abs(t) < MAXT /\ t' = t + dt /\ UNCHANGED <<s, dt, alive, drawn, next, delay, dur, v>>
Grow == /\ next <= MAXID /\ alive' = alive \cup {next} /\ next' = next + 1 /\ UNCHANGED <<s, t, dt, drawn, delay, dur, v>>
Drop(i) == /\ alive' = alive \ {i} /\ s' = [s EXCEPT !.ids = @ \ {i}] /\ drawn' = [j \in DOMAIN drawn \ {i} |-> drawn[j]] /\ UNCHANGED <<t, dt, next, delay, dur, v>>
Rewind == /\ s' = FRESH /\ t' = 0 /\ alive' = {} /\ drawn' = <<>> /\ next' = 1 /\ UNCHANGED <<dt, delay, dur, v>>
Next == Step(dt) \/ Idle \/ Grow \/ (\E i \in alive : Drop(i)) \/ Rewind
Spec == Init /\ [][Next]_vars
(* an uncertainty in use after a step is not older than its duration (seen one step later), is not from before the delay, and belongs to an element *)
Fresh == \A i \in DOMAIN drawn : drawn[i] >= delay \/ delay = 0
Young == s.start = FOREVER \/ \A i \in DOMAIN drawn : drawn[i] >= s.set \/ drawn[i] = s.set
Owned == DOMAIN drawn \subseteq alive /\ s.ids \subseteq alive
Same == s.ids = DOMAIN drawn
(* --- displacements --- *)
Cfg == [kind |-> "point", ts |-> <<<<0, v[1], v[2]>>>>, method |-> "RK2", scale |-> 10, down |-> 3]
El(z, st) == [z |-> z, st |-> st, w |-> 30000, rise |-> 12, lat |-> 450000]
KINDS == {"point", "wind", "current", "simple", "rise", "random"}
K(k) == [Cfg EXCEPT !.kind = k]
Still == \A k \in KINDS : Drift(K(k), El(0, 3), t, dt) = <<0, 0, 0>>
Deep == \A k \in {"point", "wind"} : Drift(K(k), El(5, INWATER), t, dt) = <<0, 0, 0>>
Back == \A k \in KINDS : LET a == Drift(K(k), El(0, INWATER), t, dt) b == Drift(K(k), El(0, INWATER), t + dt, -dt) IN \A i \in 1..3 : Near(a[i] + b[i], 0, 2)
Twice == \A k \in KINDS : LET a == Drift(K(k), El(0, INWATER), t, dt) b == Drift(K(k), El(0, INWATER), t, 2 * dt) IN \A i \in 1..3 : Near(2 * a[i], b[i], 4)
Methods == \A M \in {"Euler", "RK2", "RK4"} : LET a == Carries(Cfg.ts, t, dt, M) IN Near(a[1], v[1], 1) /\ Near(a[2], v[2], 1)
Middle == LET ts == <<<<0, 0, 0>>, <<MAXT, v[1], v[2]>>>> a == Carries(ts, t, dt, "RK2") b == Carries(ts, t, dt, "RK4") IN (t >= 0 /\ t + dt <= MAXT /\ t + dt >= 0) => Near(a[1], b[1], 3) /\ Near(a[2], b[2], 3)
Ranges == /\ Works(TRUE, -FOREVER, FOREVER, t, dt) /\ ~Works(FALSE, -FOREVER, FOREVER, t, dt)
          /\ (Works(TRUE, 60, 120, t, dt) <=> 120 <= 2 * t + dt /\ 2 * t + dt <= 240)
Roots == LET n == Abs(t) * 977 + Abs(v[1]) IN Isqrt(n) * Isqrt(n) <= n /\ (Isqrt(n) + 1) * (Isqrt(n) + 1) > n
=============================================================================
