-------------------------------- MODULE MovGen --------------------------------
(* histories of one mover: steps in both directions, elements added, taken away and changed, settings changed, rewinds *)
EXTENDS Mov, TLC, Json
CONSTANTS LEN
VARIABLES hist
R(S) == RandomElement(S)
RECURSIVE Times(_, _)
Times(k, t) == IF k = 0 THEN <<>> ELSE <<t>> \o Times(k - 1, t + 60 * R({5, 10, 30, 60, 180, 360}))
Speed(top) == R({0, R(-800..800), R(-top..top), R(-top..top), R(-top..top)})
Field(k, top) == LET ts == Times(k, 60 * R(-300..60)) IN [i \in 1..k |-> <<ts[i], Speed(top), Speed(top)>>]
Dt(u) == R({1, 1, 1, -1}) * R({60, 300, 600, 900, 900, 1800, 3600, 7200})
Mover(kind) ==
  LET unc == R({FALSE, TRUE, kind = "current"})
      dt == Dt(0)
      tail == [kind |-> kind, unc |-> unc, dt |-> dt, n |-> IF kind \in {"random", "random3"} THEN 110 ELSE IF R(0..11) = 0 THEN R(60..140) ELSE R(3..8),
               ts |-> CASE kind = "current" -> Field(R({1, 1, 3}), 3000) [] kind = "simple" -> Field(1, 2000) [] OTHER -> Field(R(1..4), 30000),
               method |-> R({"Euler", "RK2", "RK4"}), scale |-> R({10, 10, R(0..30), -R(1..20)}), down |-> R({0, R(-100..100)}),
               usp |-> R({0, 10, 20, 30}), uang |-> R({0, 0, 2, 4, 6}), along |-> R({0, R(0..900)}), cross |-> R({0, R(0..500)}),
               delay |-> R({0, 0, Abs(dt), 3 * Abs(dt), 5400}), dur |-> R({Abs(dt), 2 * Abs(dt), 5 * Abs(dt), 86400}), shear |-> R({0, 0, R(-20..20)}),
               us |-> R(0..1000), D |-> R({0, 1, 10, 100, 1000, R(1..10000)}), D2 |-> R({0, 1, R(1..1000)}), V |-> R({0, 11, 500, R(1..5000)}), V2 |-> R({0, 11, R(1..500)}),
               factor |-> R({10, 20, 40, R(10..60)}), ml |-> R({10000, 10000, 5000, 20000, R(20000..60000)}), surf |-> R(BOOLEAN), ctor |-> R(BOOLEAN)]
  IN <<"mover", tail>>
New(u) == Mover(R({"point", "point", "wind", "wind", "current", "current", "current", "simple", "rise", "random", "random3"}))
Op(u) == LET k == R(0..29) IN
   CASE k < 17 -> <<"step">>
     [] k < 19 -> <<"elems", R(0..3)>>
     [] k = 19 -> <<"drop", R(0..7)>>
     [] k < 22 -> <<"grow">>
     [] k = 22 -> <<"on", R(BOOLEAN)>>
     [] k < 25 -> LET a == R(-4..12) IN <<"range", IF R(0..3) = 0 THEN -99 ELSE a, IF R(0..3) = 0 THEN 99 ELSE a + R(1..12)>>
     [] k < 27 -> <<"rewind", R({0, Dt(u)})>>
     [] k < 29 -> <<"set", R({"scale", "D", "factor", "usp", "uang", "us"}), R({0, R(1..30)})>>
     [] OTHER -> <<"warp", R(1..6), R({0, Dt(u)})>>
Init == hist = <<>>
Next == /\ Len(hist) < LEN
        /\ hist' = Append(hist, IF hist = <<>> THEN New(0) ELSE Op(Len(hist)))
        /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist')))
Spec == Init /\ [][Next]_hist
=============================================================================
