------------------------------ MODULE SeriesGen ------------------------------
(* histories of a wind: given in every way, asked in every way, changed and refused in between; transforms, currents and other series *)
EXTENDS Series, TLC, Json
CONSTANTS LEN
VARIABLES hist
R(S) == RandomElement(S)
RECURSIVE Times(_, _)
Times(k, t) == IF k = 0 THEN <<>> ELSE <<t>> \o Times(k - 1, t + 60 * R({1, 5, 10, 60, 61, 180, 300, 360, 1440, 4320}))
Dir(u) == R({0, 4500, 9000, 18000, 27000, 36000, 2250 * R(0..15), 100 * R(0..359), R(0..36000)})
Val(t, sys) == IF sys = "uv" THEN <<t, R(-30000..30000), R(-30000..30000)>> ELSE <<t, R({0, 1000, R(0..50000), R(0..50000)}), Dir(t)>>
Vals(k, sys) == LET ts == Times(k, 60 * R(0..600)) IN [i \in 1..k |-> Val(ts[i], sys)]
Zone(u) == R({NOZONE, 0, -800, -350, 550, 1200})
Set(h) == LET file == h \in {"file3", "file4", "file5", "fromfile"}
              sys == IF h \in {"array", "list", "setdata"} THEN R({"r-theta", "uv"}) ELSE "r-theta"
              k == IF h \in {"constant", "single"} THEN 1 ELSE IF R(0..24) = 0 THEN R(60..100) ELSE R(1..5)
          IN <<"set", h, R(UNITS), sys, Vals(k, sys), R(BOOLEAN), IF h \in {"array", "list", "single", "file4", "file5"} THEN Zone(0) ELSE NOZONE>>
New(u) == Set(R({"array", "list", "single", "values", "constant", "file3", "file4", "file5", "fromfile"}))
Op(u) == LET k == R(0..29) IN
   CASE k < 2 -> New(u)
     [] k < 5 -> Set(R({"setdata", "prop", "update", "prop_list"}))
     [] k < 16 -> <<"ask", R({"data", "data", "value", "at", "at"}), R({"r-theta", "uv"}), R({"", R(UNITS)}), R({"none", "none", "yes", "no"}), R(0..4), R({"both", "first", "second"})>>
     [] k = 16 -> <<"units", R(UNITS)>>
     [] k = 17 -> <<"ext", R(BOOLEAN)>>
     [] k = 18 -> <<"tz", Zone(u)>>
     [] k = 19 -> <<"rt">>
     [] k = 20 -> <<"gust", R({10, 20, 30, 40}), R(BOOLEAN), R(0..3)>>
     [] k < 24 -> <<"bad", R({"array", "list", "setdata", "prop", "update", "values"}), R({"order", "twice", "negative", "turn", "unit", "left"}), R(UNITS), Vals(R(2..4), "r-theta")>>
     [] k < 26 -> <<"xf", Vals(R(1..4), "r-theta"), R(BOOLEAN)>>
     [] k < 28 -> <<"cur", R(0..3000), Dir(u), R(UNITS), R({"", R(UNITS)}), R(1..4), R(BOOLEAN)>>
     [] OTHER -> <<"tsd", R({1, 2}), R(UNITS), R({"", R(UNITS)}), Vals(R(1..4), "uv"), R(BOOLEAN), R(BOOLEAN), R(0..3)>>
Init == hist = <<>>
Next == /\ Len(hist) < LEN
        /\ hist' = Append(hist, IF hist = <<>> THEN New(0) ELSE Op(Len(hist)))
        /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist')))
Spec == Init /\ [][Next]_hist
=============================================================================
