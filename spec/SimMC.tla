-------------------------------- MODULE SimMC --------------------------------
(* exhaustive exploration of call histories on small models; with GEN, prints histories *)
EXTENDS Sim, TLC, Json
CONSTANTS MaxSteps, Depth, Configs
VARIABLES m, cs, top, hist

Sp(t0, d, n, npt, on, s, e) == [t0 |-> t0, d |-> d, n |-> n, npt |-> npt, on |-> on, s |-> s, e |-> e]
Mv(x, y, r0, r1) == [x |-> x, y |-> y, on |-> TRUE, r0 |-> r0, r1 |-> r1]
Base == [start |-> 0, dt |-> 4, dur |-> 4 * MaxSteps, back |-> FALSE, unc |-> TRUE, step |-> -1,
         spills |-> <<Sp(2, 10, 5, 0, TRUE, <<0, 0, 0>>, <<8, 4, 0>>), Sp(0, 0, 2, 0, TRUE, <<2, 2, 0>>, <<2, 2, 0>>)>>,
         movers |-> <<Mv(<<3, 1, 1>>, <<0, 0, 2>>, None0, None0), Mv(<<1, 0, 0>>, <<-2, 0, 0>>, 6, 12)>>,
         weath |-> <<[on |-> TRUE, mark |-> 4]>>, outs |-> <<>>, sub |-> 1, box |-> <<-9, -9, 14, 9>>, rnd |-> FALSE, cache |-> FALSE]
Alt == [Base EXCEPT !.spills = <<Sp(0, 7, 7, 0, TRUE, <<0, 0, 0>>, <<6, 0, 0>>), Sp(8, 8, 0, 2, TRUE, <<1, 1, 0>>, <<1, 1, 0>>), Sp(0, 0, 3, 0, FALSE, <<0, 0, 0>>, <<0, 0, 0>>)>>,
                    !.weath = <<>>, !.unc = FALSE]
Back == [Base EXCEPT !.spills = <<Sp(0, 0, 3, 0, TRUE, <<0, 0, 0>>, <<5, 5, 0>>), Sp(-6, 0, 2, 0, TRUE, <<0, 0, 0>>, <<0, 0, 0>>)>>, !.back = TRUE, !.dt = -4, !.dur = -4 * MaxSteps]
Bad1 == [Base EXCEPT !.start = 4]
Start == CASE Configs = "all" -> {Base, Alt, Back, Bad1} [] OTHER -> {Base}

Empty(mm) == [c \in {1, 2} |-> EmptyCont(mm)]
Init == m \in Start /\ cs = Empty(m) /\ top = [c \in {1, 2} |-> 0] /\ hist = <<>>
Rew(mm) == m' = Rewound(mm) /\ cs' = Empty(mm) /\ top' = [c \in {1, 2} |-> 0]
DoStep == /\ Outcome(m) = "runs"
          /\ m' = [m EXCEPT !.step = @ + 1]
          /\ cs' = [c \in {1, 2} |-> IF c = 2 /\ ~m.unc THEN EmptyCont(m) ELSE StepCont(m, c, cs[c])]
          /\ top' = [c \in {1, 2} |-> cs'[c].next]
Next == /\ \/ DoStep
           \/ Rew(m)
           \/ Rew([m EXCEPT !.unc = ~@])
           \/ Rew([m EXCEPT !.start = IF @ = 0 THEN 2 ELSE 0])
           \/ Rew([m EXCEPT !.dt = IF Abs(@) = 4 THEN (@ \div 2) ELSE 2 * @])
           \/ (m.dur > 0 /\ m.dur < 4 * (MaxSteps + 2) /\ m' = [m EXCEPT !.dur = @ + 4] /\ UNCHANGED <<cs, top>>)
           \/ (m.dur > 8 /\ Rew([m EXCEPT !.dur = @ - 4]))
           \/ Rew([m EXCEPT !.back = ~@, !.dt = -@, !.dur = -@])
        /\ hist' = <<>>
Spec == Init /\ [][Next]_<<m, cs, top, hist>>

Els(c) == cs[c].els
InvIds == \A c \in {1, 2} : \A i, j \in 1..Len(Els(c)) : (i < j => Els(c)[i][1] < Els(c)[j][1]) /\ Els(c)[i][1] < cs[c].next
InvCount == \A c \in {1, 2} : \A i \in Spills(m) :
               LET r == RelOf(m, i) IN
               (m.step >= 0 /\ m.spills[i].on /\ ~(c = 2 /\ ~m.unc)) =>
                   /\ cs[c].rel[i] = IF m.dt > 0 THEN Exact(r, Now(m)) ELSE (IF r.t0 <= m.start THEN cs[c].rel[i] ELSE 0)
                   /\ (m.dt > 0 /\ Now(m) < r.t0 => cs[c].rel[i] = 0)
                   /\ (m.dt > 0 /\ Now(m) >= r.t0 + r.d => cs[c].rel[i] = r.n)
                   /\ cs[c].rel[i] <= r.n
InvInside == \A c \in {1, 2} : \A i \in 1..Len(Els(c)) : Els(c)[i][4] > 0 => Inside(m, Els(c)[i]) >= 1
InvAge == \A c \in {1, 2} : \A i \in 1..Len(Els(c)) : Els(c)[i][4] <= Abs(Now(m) - m.start) \div 2 /\ Els(c)[i][4] >= 0
                                                     /\ Els(c)[i][4] % Secs(m) = 0
InvClock == m.step >= -1 /\ (m.step >= NumSteps(m) => FALSE)
InvRewound == m.step = -1 => Els(1) = <<>> /\ Els(2) = <<>>
(* the released number never decreases with time, and follows the plan within one element per interval *)
InvMono == \A i \in Spills(m) : LET r == RelOf(m, i) IN (m.dt > 0 /\ r.n >= r.k) =>
             \A t \in (r.t0 - 2)..(r.t0 + r.d + 2) :
               /\ Exact(r, t) <= Exact(r, t + 1)
               /\ Exact(r, t) \in Existing(r, t)
               /\ (r.d > 0 /\ r.d % r.ts = 0 /\ t >= r.t0 /\ t <= r.t0 + r.d) => Abs(Exact(r, t) * r.d - r.n * (t - r.t0)) <= r.d + r.k * r.ts
InvPlace == \A i \in Spills(m) : LET r == RelOf(m, i) IN
             \A t \in r.t0..(r.t0 + r.d) : SourceAt(r, 1, t) >= Min2(r.s[1], r.e[1]) /\ SourceAt(r, 1, t) <= Max2(r.s[1], r.e[1])

(* --------------------------- histories for replay --------------------------- *)
Ops == [op : {"steps"}, k : {1, 2, 3}] \cup [op : {"finish", "rewind", "iter"}, k : {0}] \cup [op : {"full"}, k : {0, 1}]
       \cup [op : {"start", "dt", "unc", "back"}, k : {0, 1}] \cup [op : {"dur"}, k : {-2, -1, 1, 3}] \cup [op : {"mover", "map"}, k : {0}]
       \cup [op : {"spillon", "addspill", "delspill"}, k : {0, 1, 2}]
InitH == m = Base /\ cs = <<>> /\ top = <<>> /\ hist = <<>>
NextH == Len(hist) < Depth /\ (\E o \in Ops : (Len(hist) % 2 = 0 => o.op \in {"steps", "finish"}) /\ hist' = Append(hist, o)) /\ UNCHANGED <<m, cs, top>>
SpecH == InitH /\ [][NextH]_<<m, cs, top, hist>>
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
==============================================================================
