------------------------------- MODULE GeoGen -------------------------------
(* generates polygons with points to test, split polygons, histories of polygon sets and of boxes, and BNA files *)
EXTENDS Geo, TLC, Json
CONSTANTS LEN, KIND
VARIABLE hist
R(S) == RandomElement(S)
Pt(u) == <<R(-2..10), R(-2..10)>>
Poly(u) == [i \in 1..R(3..7) |-> <<R(0..8), R(0..8)>>]
RECURSIVE Stairs(_, _)
Stairs(n, x) == IF n = 0 THEN <<>> ELSE <<x>> \o Stairs(n - 1, x + R(1..3))
MonoCase(u) == LET n == R(3..5)
                   xs == Stairs(n, 0)
                   lo == [i \in 1..n |-> R(0..4)]
                   hi == [i \in 1..n |-> 5 + R(0..4)]
               IN [xs |-> xs, lo |-> lo, hi |-> hi, k |-> R(2..(n - 1))]
Line(u) == [i \in 1..R(2..8) |-> <<R(0..12), R(0..12)>>]
(* runs of nearby points, so that thinning has something to do *)
Wiggle(u) == LET n == R(3..9) a == [i \in 1..n |-> <<R(0..3) * 4 + R(0..1), R(0..3) * 4 + R(0..1)>>]
             IN IF R(0..1) = 0 THEN a ELSE Close(a)
Sc(u) == <<R({1, 3, 5, 7}), R({1, 3, 5, 7})>>
Name(u) == R({"1", "Map Bounds", "SpillableArea", "a, b", "", "x y z", "Isle (n. 2)"})
BnaRec(u) == LET k == R(0..9)
                 q == [i \in 1..R(3..6) |-> <<R(-20..20), R(-20..20)>>]
                 pts == CASE k < 4 -> Close(q) [] k = 4 -> q [] k = 5 -> <<q[1]>> [] k = 6 -> <<q[1], q[2]>> [] OTHER -> q
                 n == CASE k \in {7, 8} -> -Len(pts) [] OTHER -> Len(pts)
             IN [n |-> n, p |-> pts, a |-> Name(u), b |-> Name(u + 1)]
Box(u) == IF R(0..9) = 0 THEN <<>> ELSE LET p == Pt(u) q == Pt(u + 1) IN BoxOf(<<p, q>>)
SetOp(u) == LET k == R(0..15) IN
   CASE k < 4 -> <<"append", R(0..1), IF R(0..3) = 0 THEN Wiggle(u) ELSE IF R(0..14) = 0 THEN <<>> ELSE Line(u), R(0..9), R(0..2)>>
     [] k = 4 -> <<"copy", R(0..1)>>
     [] k = 5 -> <<"shift", R(0..1), <<R(-3..3), R(-3..3)>>>>
     [] k \in {6, 7} -> <<"thin", R(0..1), Sc(u), R(0..1)>>
     [] k = 8 -> <<"setdata", R(0..1)>>
     [] k = 9 -> <<"fromdata", R(0..1)>>
     [] k = 10 -> <<"new", R(0..1)>>
     [] k \in {11, 12} -> <<"same", R(0..1), Line(u), Line(u + 1), R(0..9), R(1..4)>>
     [] k = 13 -> <<"scribble", R(0..1)>>
     [] OTHER -> <<"cmp", R(0..1)>>
BoxOp(u) == LET k == R(0..9) IN
   CASE k < 3 -> <<"merge", Box(u)>>
     [] k < 7 -> <<"rel", Box(u), Pt(u)>>
     [] k = 7 -> <<"from", [i \in 1..R(1..5) |-> Pt(i)]>>
     [] k = 8 -> <<"frombb", [i \in 1..R(1..4) |-> BoxOf(<<Pt(i), Pt(i + 9)>>)]>>
     [] OTHER -> <<"ctor", [i \in 1..4 |-> R(-2..6)]>>
Op(u) == CASE KIND = "pip" -> (LET k == R(0..4) IN
                               IF k < 2 THEN <<"poly", Poly(u), R(0..5), R(0..6)>>
                               ELSE IF k < 4 THEN <<"mono", MonoCase(u), R(0..5), R(0..3)>>
                               ELSE <<"bna", [i \in 1..R(1..4) |-> BnaRec(i)], R(0..7), R(0..1)>>)
           [] KIND = "set" -> SetOp(u) [] KIND = "box" -> BoxOp(u)
Init == hist = <<>>
Next == /\ Len(hist) < LEN
        /\ hist' = Append(hist, Op(Len(hist)))
        /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(<<KIND, hist'>>)))
Spec == Init /\ [][Next]_hist
=============================================================================
