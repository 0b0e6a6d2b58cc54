------------------------------- MODULE ProjGen -------------------------------
(* histories of a projection: rescaled with and without a new image size, and asked in between; metres, great circles and unequal grids *)
EXTENDS Proj, TLC, Json
CONSTANTS LEN
VARIABLES hist
R(S) == RandomElement(S)
Lat(u) == R(-75..75)
(* the middle latitude is a whole degree *)
Box(u) == LET w == R({1, 2, 5, 10, 37, 100, 200, 400}) h == 2 * R({1, 2, 5, 10, 37, 100, 150})
              m == 10 * Lat(u) x == R(-1800..1500)
          IN <<x, m - h \div 2, x + w, m + h \div 2>>
Size(u) == <<R({50, 64, 100, 301, 500, 800}), R({50, 64, 100, 301, 500, 800})>>
Cell(g) == [i \in 1..R(2..6) |-> R(1..30)]
New(u) == LET b == IF R(0..9) = 0 THEN <<>> ELSE Box(u) s == IF R(0..4) = 0 THEN <<>> ELSE IF b = <<>> THEN <<R(500..600), R(500..600)>> ELSE Size(u)
          IN <<"new", R({"geo", "flat", "reg"}), b, s>>
Op(u) == LET k == R(0..19) IN
   CASE k < 2 -> New(u)
     [] k < 6 -> <<"scale", Box(u), IF R(0..2) = 0 THEN <<>> ELSE Size(u)>>
     [] k < 10 -> <<"pix", R(1..6)>>
     [] k < 14 -> <<"deg", R(1..6)>>
     [] k = 14 -> <<"rt", R(0..2)>>
     [] k = 15 -> <<"met", [i \in 1..R(1..4) |-> <<R(-90000..90000), R(-90000..90000), R(-50..50), Lat(i)>>], R(0..3)>>
     [] k \in {16, 17} -> <<"circle", R(-179..179), R(-85..85), R(1..85), R({0, 90, 180, 270, R(0..359)})>>
     [] OTHER -> <<"grid", R(-1700..1000), R(-800..0), Cell(0), Cell(1), R(1..6)>>
Init == hist = <<>>
Next == /\ Len(hist) < LEN
        /\ hist' = Append(hist, IF hist = <<>> THEN New(0) ELSE Op(Len(hist)))
        /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist')))
Spec == Init /\ [][Next]_hist
=============================================================================
