-------------------------------- MODULE Geo --------------------------------
(* Plane geometry on integer coordinates: points in polygons, orientation, area, boxes, thinning,   *)
(* ordered sets of polygons, and the records of a BNA boundary file.                                *)
EXTENDS Integers, Sequences, FiniteSets, Util

Prev(P, i) == IF i = 1 THEN P[Len(P)] ELSE P[i - 1]
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnEdge(a, b, p) == Cross(a, b, p) = 0 /\ Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
OnBoundary(P, p) == \E i \in 1..Len(P) : OnEdge(Prev(P, i), P[i], p)
(* the rightward ray from p crosses the edge a-b (lower end included, upper end not) *)
Crossed(a, b, p) == ((a[2] > p[2]) /= (b[2] > p[2])) /\
                    (IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0)
Inside(P, p) == Cardinality({i \in 1..Len(P) : Crossed(Prev(P, i), P[i], p)}) % 2 = 1
RECURSIVE Area2From(_, _)
Area2From(P, i) == IF i > Len(P) THEN 0
                   ELSE LET a == Prev(P, i) b == P[i] IN a[1] * b[2] - b[1] * a[2] + Area2From(P, i + 1)
Area2(P) == Area2From(P, 1)                       \* twice the signed area: negative when clockwise

Rotate(P, k) == [i \in 1..Len(P) |-> P[((i - 1 + k) % Len(P)) + 1]]
Rev(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
Close(P) == Append(P, P[1])

(* an x-monotone simple polygon, its lower chain lo and upper chain hi over the abscissae xs, and its two parts *)
Mono(xs, lo, hi) == LET n == Len(xs) IN
   [i \in 1..(2 * n) |-> IF i <= n THEN <<xs[i], lo[i]>> ELSE <<xs[2 * n + 1 - i], hi[2 * n + 1 - i]>>]
Sub(s, a, b) == SubSeq(s, a, b)
Left(xs, lo, hi, k) == Mono(Sub(xs, 1, k), Sub(lo, 1, k), Sub(hi, 1, k))
Right(xs, lo, hi, k) == LET n == Len(xs) IN Mono(Sub(xs, k, n), Sub(lo, k, n), Sub(hi, k, n))

(* boxes: <<minx, miny, maxx, maxy>>; <<>> is the null box *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
BoxOf(P) == IF Len(P) = 0 THEN <<>> ELSE
   LET X == {P[i][1] : i \in 1..Len(P)}  Y == {P[i][2] : i \in 1..Len(P)} IN <<MinOf(X), MinOf(Y), MaxOf(X), MaxOf(Y)>>
Merge(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE
   <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4])>>
BoxHas(a, p) == a /= <<>> /\ a[1] <= p[1] /\ p[1] <= a[3] /\ a[2] <= p[2] /\ p[2] <= a[4]
BoxIn(a, b) == a /= <<>> /\ b /= <<>> /\ a[1] <= b[1] /\ b[3] <= a[3] /\ a[2] <= b[2] /\ b[4] <= a[4]   \* b within a
Overlap(a, b) == a /= <<>> /\ b /= <<>> /\ a[3] >= b[1] /\ a[1] <= b[3] /\ a[4] >= b[2] /\ a[2] <= b[4]

(* thinning for drawing at 1/sx, 1/sy (odd divisors: no ties): drop points drawn on the pixel of the point before *)
RoundDiv(n, d) == (2 * n + d) \div (2 * d)
Pix(p, sc) == <<RoundDiv(p[1], sc[1]), RoundDiv(p[2], sc[2])>>
Closed(P) == P[1] = P[Len(P)]
Thin(P, sc) ==
  LET n == IF Closed(P) THEN Len(P) - 1 ELSE Len(P)
      keep == [i \in 1..n |-> i = 1 \/ Pix(P[i], sc) /= Pix(P[i - 1], sc)]
      RECURSIVE F(_)
      F(i) == IF i > n THEN <<>> ELSE (IF keep[i] THEN <<P[i]>> ELSE <<>>) \o F(i + 1)
      t == F(1)
  IN IF Len(t) <= 1 THEN <<>> ELSE IF Closed(P) THEN Append(t, P[1]) ELSE t
(* what is drawn: pixels visited in order, repetitions removed *)
Drawn(P, sc) == LET RECURSIVE F(_)
                    F(i) == IF i > Len(P) THEN <<>>
                            ELSE (IF i > 1 /\ Pix(P[i], sc) = Pix(P[i - 1], sc) THEN <<>> ELSE <<Pix(P[i], sc)>>) \o F(i + 1)
                IN F(1)

(* ordered sets of polygons: sequences of [p |-> points, m |-> metadata] *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).p \o Flat(Tail(s))
Shift(s, d) == [i \in 1..Len(s) |-> [p |-> [j \in 1..Len(s[i].p) |-> <<s[i].p[j][1] + d[1], s[i].p[j][2] + d[2]>>], m |-> s[i].m]]
ThinSet(s, sc) == SelectSeq([i \in 1..Len(s) |-> [p |-> IF s[i].p = <<>> THEN <<>> ELSE Thin(s[i].p, sc), m |-> s[i].m]], LAMBDA r : Len(r.p) > 0)

(* one record of a BNA file: n as declared, the points, the two names *)
BnaType(n) == IF n < 0 \/ n = 2 THEN "polyline" ELSE IF n = 1 THEN "point" ELSE "polygon"
BnaPts(n, P) == IF BnaType(n) = "polygon" /\ Closed(P) THEN SubSeq(P, 1, Len(P) - 1) ELSE P
BnaOk(r) == r.n /= 0 /\ Abs(r.n) = Len(r.p)
=============================================================================
