------------------------------- MODULE CalGen -------------------------------
(* generates histories of time conversions: in each zone, dates biased to the days on which zones
   switch to and from summer time, month and year ends, and all hours around them *)
EXTENDS Cal, Json
CONSTANTS LEN, ZONES
VARIABLE hist
R(S) == RandomElement(S)
Date(y, k) == CASE k = 0 -> <<3, NthSunday(y, 3, 2)>> [] k = 1 -> <<11, NthSunday(y, 11, 1)>>
                [] k = 2 -> <<3, LastSunday(y, 3)>> [] k = 3 -> <<10, LastSunday(y, 10)>>
                [] k = 4 -> <<2, Dim(y, 2)>> [] k = 5 -> <<12, 31>> [] k = 6 -> <<1, 4>>
                [] k = 7 -> <<4, NthSunday(y, 4, 1)>> [] k = 8 -> <<9, LastSunday(y, 9)>>
                [] k = 9 -> <<4, LastSunday(y, 4)>> [] k = 10 -> <<6, 30>> [] k = 11 -> <<7, 15>>
                [] OTHER -> <<(k % 12) + 1, 3 + (k % 25)>>
Pick(y, k, h, mi, s) == LET d == Date(y, k) IN <<y, d[1], d[2], h, mi, s>>
APick(u) == Pick(R(1970..2037), R(0..40), R({0, 1, 1, 2, 2, 3, 4, 12, 23}), R({0, 1, 30, 30, 59, 44}), R({0, 0, 1, 30, 59}))
Zone(u) == <<"zone", R(0..(ZONES - 1))>>
Conv(u) == <<"conv", APick(u)>>
ArrOp(u) == <<"arr", [i \in 1..R(1..5) |-> APick(i)], R(0..3)>>
RoundOp(u) == <<"round", [i \in 1..R(1..3) |-> APick(i)], R({1, 2, 10, 15, 30, 60, 60, 300, 900, 1800, 3600, 86400}), R(0..2)>>
TzOp(u) == <<"tzoff", R(-840..840), R(0..2)>>
AsOp(u) == <<"asdt", APick(u), R(0..2)>>
InfOp(u) == <<"inf", [i \in 1..R(2..5) |-> R({0, 1, 2, 2})], [i \in 1..5 |-> APick(i)]>>
CtorOp(u) == <<"ctor", R({<<2038, 1, R({18, 19, 19, 20}), R({0, 0, 12, 23}), R({0, 0, 59}), R({0, 0, 1, 59})>>, R({<<1969, 12, 31, 23, 59, 59>>, <<1970, 1, 1, 0, 0, R(0..1)>>}), Pick(R({1969, 1970, 1970, 1999, 2024, 2037, 2038, 2038, 2039}), R({5, 6, 6, 11}), R({0, 23}), 0, R({0, 1}))})>>
Op(u) == LET k == R(0..17) IN
      IF k < 6 THEN Conv(u) ELSE IF k < 8 THEN ArrOp(u) ELSE IF k < 10 THEN RoundOp(u)
      ELSE IF k < 12 THEN TzOp(u) ELSE IF k < 13 THEN AsOp(u) ELSE IF k < 16 THEN InfOp(u) ELSE CtorOp(u)
Init == hist = <<>>
Next == /\ Len(hist) < LEN
        /\ hist' = Append(hist, IF Len(hist) = 0 THEN Zone(Len(hist)) ELSE Op(Len(hist)))
        /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist')))
Spec == Init /\ [][Next]_hist
=============================================================================
