------------------------------- MODULE GeoMC -------------------------------
(* enumerates triangles, quadrilaterals and split polygons on a small grid and checks the definitions against
   independent ones: half-planes, rotation, reversal, tiling, boxes as least upper bounds, thinning by what is drawn *)
EXTENDS Geo, TLC
CONSTANTS N, CH
VARIABLES st
G == 0..N
Pt == G \X G
Half == {<<x, y>> : x \in -1..(N + 1), y \in -1..(N + 1)}
Tri == {<<a, b, c>> : a \in Pt, b \in Pt, c \in Pt}
Quad == {<<a, b, c, d>> : a \in {<<0, 0>>, <<0, N>>, <<1, 0>>}, b \in Pt, c \in Pt, d \in Pt}
Chains == {<<lo, hi>> : lo \in [1..3 -> 0..CH], hi \in [1..3 -> 1..(CH + 1)]}
Init == st \in {[k |-> "tri", P |-> t] : t \in Tri} \cup {[k |-> "quad", P |-> t] : t \in Quad}
             \cup {[k |-> "mono", P |-> c] : c \in {c \in Chains : \A i \in 1..3 : c[1][i] < c[2][i]}}
Next == FALSE /\ st' = st
Spec == Init /\ [][Next]_st
P == st.P
Strict(T, p) == LET s == {Sign(Cross(T[1], T[2], p)), Sign(Cross(T[2], T[3], p)), Sign(Cross(T[3], T[1], p))} IN s = {1} \/ s = {-1}
Triangles == st.k = "tri" /\ Area2(P) /= 0 => \A p \in Half : ~OnBoundary(P, p) => (Inside(P, p) <=> Strict(P, p))
Invariance == st.k /= "mono" => /\ Area2(Rev(P)) = -Area2(P) /\ Area2(Rotate(P, 1)) = Area2(P) /\ Area2(Close(P)) = Area2(P)
                                /\ \A p \in Half : ~OnBoundary(P, p) => LET i == Inside(P, p) IN
                                     Inside(Rev(P), p) = i /\ Inside(Rotate(P, 1), p) = i /\ Inside(Close(P), p) = i
XS == <<0, 2, 4>>
Tiling == st.k = "mono" =>
   LET W == Mono(XS, P[1], P[2]) A == Left(XS, P[1], P[2], 2) B == Right(XS, P[1], P[2], 2)
   IN /\ Area2(W) > 0 /\ Area2(A) + Area2(B) = Area2(W)
      /\ \A p \in {<<x, y>> : x \in -1..5, y \in -1..(CH + 2)} :
           /\ (Inside(A, p) /\ Inside(B, p)) = FALSE
           /\ (Inside(A, p) \/ Inside(B, p)) = Inside(W, p)
           /\ ~OnBoundary(W, p) => (Inside(W, p) <=> \E k \in 1..2 : LET f == XS[k] g == XS[k + 1] IN f <= p[1] /\ p[1] <= g
                  /\ (P[1][k + 1] - P[1][k]) * (p[1] - f) < (p[2] - P[1][k]) * (g - f)
                  /\ (P[2][k + 1] - P[2][k]) * (p[1] - f) > (p[2] - P[2][k]) * (g - f))
Boxes == st.k = "quad" => LET a == BoxOf(SubSeq(P, 1, 2)) b == BoxOf(SubSeq(P, 3, 4)) u == Merge(a, b) IN
   /\ u = BoxOf(P) /\ Merge(b, a) = u /\ BoxIn(u, a) /\ BoxIn(u, b) /\ Merge(<<>>, a) = a
   /\ \A q \in Pt : BoxHas(u, q) => (BoxHas(a, q) \/ BoxHas(b, q) \/ u /= a)
   /\ Overlap(a, b) = (\E q \in Pt : BoxHas(a, q) /\ BoxHas(b, q))
Thinning == st.k = "quad" => \A sc \in {<<1, 1>>, <<3, 3>>, <<1, 3>>} : \A Q \in {P, Close(P)} :
   LET t == Thin(Q, sc) d == Drawn(Q, sc) IN
   IF t = <<>> THEN \/ Len(d) = 1 \/ (Closed(Q) /\ Len(Drawn(SubSeq(Q, 1, Len(Q) - 1), sc)) = 1)
   ELSE Drawn(t, sc) = d /\ t[1] = Q[1] /\ (Closed(Q) => Closed(t))
=============================================================================
