-------------------------------- MODULE BirthMC --------------------------------
(* the settings of a substance and the elements released with it; and the laws for droplets, oil and water on small values *)
EXTENDS Birth
CONSTANTS MAXN, STEPS
VARIABLES s, els, n, d, t, v
vars == <<s, els, n, d, t, v>>
RANGES == {<<>>, <<10000, 40000>>, <<0, 0>>, <<-1, 5>>, <<3>>}
PERS == {NONE, 0, -1, 0 - 7777, 60}
OIL == [dens |-> <<<<27300, 900000>>, <<28800, 890000>>, <<30000, 880000>>>>, visc |-> <<>>, pour |-> 26000, api |-> 31, frac |-> <<250000, 750000>>]
Init == /\ s = [kind |-> "plain", range |-> <<10000, 40000>>, pers |-> 900] /\ els = <<>> /\ n = 0
        /\ d \in STEPS /\ t \in {24000 + 900 * k : k \in 0..9} /\ v \in {800000, 1000000, 1100000}
SetRange(r) == s' = IF r = <<>> \/ RangeOk(r) THEN [s EXCEPT !.range = Ranged(r)] ELSE s
SetPers(p) == s' = IF PersOk(p) THEN [s EXCEPT !.pers = Lasting(p)] ELSE s
Next == \/ (\E r \in RANGES : SetRange(r)) /\ UNCHANGED <<els, n, d, t, v>>
        \/ (\E p \in PERS : SetPers(p)) /\ UNCHANGED <<els, n, d, t, v>>
        \/ n < MAXN /\ n' = n + 1 /\ els' = Append(els, [lo |-> s.range[1], hi |-> s.range[2], pers |-> s.pers]) /\ UNCHANGED <<s, d, t, v>>
Spec == Init /\ [][Next]_vars
Sensible == /\ RangeOk(s.range) /\ s.pers # 0 /\ s.pers # NONE /\ s.pers # 0 - 7777
            /\ \A i \in 1..Len(els) : els[i].lo >= 0 /\ els[i].hi >= 0 /\ els[i].pers # 0
Kept == [][\A i \in 1..Len(els) : els'[i] = els[i]]_vars
(* larger drops rise faster, nothing moves in water as heavy as itself, and what is heavier sinks as fast as what is lighter rises *)
Faster == LET a == Rise(1020000, v, 1000, d) b == Rise(1020000, v, 1000, d + 40) IN IF v < 1020000 THEN b >= a ELSE b <= a
Still == Rise(1000000, 1000000, 1000, d) = 0
Mirror == Near(Rise(1000000, 1000000 - 50000, 1000, d), -Rise(1000000, 1000000 + 50000, 1000, d), 2)
Smooth == /\ Near(Rise(1020000, v, 1000, 199), Rise(1020000, v, 1000, 200), 200) /\ Near(Rise(1020000, v, 1000, 9999), Rise(1020000, v, 1000, 10000), 200)
(* warmer oil is lighter; measured values are exact; nothing changes below the lowest temperature *)
Lighter == Density(OIL, t) >= Density(OIL, t + 500)
Exact == \A i \in 1..3 : Density(OIL, OIL.dens[i][1]) = OIL.dens[i][2]
Frozen == t <= 26000 => Density(OIL, t) = Density(OIL, 26000)
Fits == LET a == <<27300, 11000000>> b == <<30000, 9000000>> IN /\ Near(Fit2(a, b, 27300), a[2], 20) /\ Near(Fit2(a, b, 30000), b[2], 20) /\ Fit1(a, 27300) = a[2] /\ Fit1(a, t) >= Fit1(a, t + 100)
Units == \A a \in DOMAIN SI : \A u \in MEASURES[a] : Near(From(Into(t, u), u), t, 2)
=============================================================================
