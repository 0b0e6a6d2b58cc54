------------------------------ MODULE GeoTrace ------------------------------
(* validates recorded geometry of the real code *)
EXTENDS Geo, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sets, box

(* each point: the answers of every form of the question, 1 inside, 0 outside *)
Answers(P, pts, res, ok) ==
  UNION {LET p == pts[i] IN
         IF OnBoundary(P, p) THEN {}
         ELSE Unless(\A f \in 1..Len(res) : res[f][i] = (IF Inside(P, p) THEN 1 ELSE 0), ok) : i \in 1..Len(pts)}
PolyEv(c) ==
  LET a == Area2(c.P) IN
     Answers(c.P, c.pts, c.res, "C17.inside_or_outside")
     \cup Unless(\A f \in 1..Len(c.res) : c.group[f] = 0 \/ \A g \in 1..Len(c.res) : c.group[g] = c.group[f] => c.res[g] = c.res[f], "C17.all_forms_agree")
     \cup Unless(c.same, "C17.arguments_untouched")
     \cup (IF a = 0 THEN {} ELSE Unless(\A f \in 1..Len(c.cw) : c.cw[f] = (a < 0), "C17.orientation"))
     \cup Unless(c.box = BoxOf(c.P), "C17.bounding_box")
(* p, in thousandths, within the triangle T, up to rounding *)
K(q) == <<1000 * q[1], 1000 * q[2]>>
InTri(T, p) == LET s == [j \in 1..3 |-> Cross(K(T[j]), K(T[(j % 3) + 1]), p)] IN
               (\A j \in 1..3 : s[j] >= -30000) \/ (\A j \in 1..3 : s[j] <= 30000)
MonoEv(c) ==
  LET W == Mono(c.xs, c.lo, c.hi) A == Left(c.xs, c.lo, c.hi, c.k) B == Right(c.xs, c.lo, c.hi, c.k)
      n == Len(c.pts)
  IN Answers(W, c.pts, c.resw, "C17.inside_or_outside") \cup Answers(A, c.pts, c.resa, "C17.inside_or_outside")
     \cup Answers(B, c.pts, c.resb, "C17.inside_or_outside")
     \cup UNION {UNION {IF OnBoundary(W, c.pts[i]) THEN {}
                        ELSE Unless(c.resa[f][i] + c.resb[f][i] = c.resw[f][i], "C17.shared_boundaries_belong_to_one_side")
                        : i \in 1..n} : f \in 1..Len(c.resw)}
     \cup Unless(\A f \in 1..Len(c.cw) : c.cw[f] = c.rev, "C17.orientation")
     \cup (IF c.tri = <<>> THEN {} ELSE
           Unless(SumSeq([i \in 1..Len(c.tri) |-> Abs(Area2(c.tri[i]))]) = Area2(W), "C17.triangles_cover_the_polygon")
           \cup Unless(\A i \in 1..Len(c.tri) : \A j \in 1..3 : c.tri[i][j] \in RangeOf(W), "C17.triangles_cover_the_polygon")
           \cup Unless(\A i \in 1..Len(c.w) : Near(c.w[i] * Area2(W), 1000000 * Abs(Area2(c.tri[i])), 3 * Area2(W)), "C17.triangles_weigh_by_area")
           \cup Unless(\A i \in 1..Len(c.rp) : InTri(c.tri[c.rp[i][1]], <<c.rp[i][2], c.rp[i][3]>>), "C17.random_points_lie_in_their_triangle"))
BnaEv(c) ==
  LET good == {i \in 1..Len(c.recs) : BnaOk(c.recs[i])}
      all == c.ok
  IN IF ~all THEN Unless(c.exc = "ValueError", "C17.malformed_files_refused")
     ELSE IF c.exc # "" THEN {"C17.boundary_files_read"}
     ELSE Unless(c.got = [i \in 1..Len(c.recs) |-> [p |-> BnaPts(c.recs[i].n, c.recs[i].p), t |-> BnaType(c.recs[i].n), a |-> c.recs[i].a, b |-> c.recs[i].b]], "C17.boundary_files_read")
          \cup Unless(c.got2 = c.got, "C17.boundary_files_read")

(* polygon sets *)
View(s) == [n |-> Len(s), total |-> Len(Flat(s)), items |-> s, neg |-> Rev(s), bb |-> BoxOf(Flat(s)), oob |-> TRUE, truth |-> Len(s) > 0, data |-> Flat(s)]
Nest(s) == [i \in 1..Len(s) |-> [p |-> s[i].p, m |-> s[i].m]]
After(c) ==
  LET i == c.i + 1
      o == 3 - i
  IN CASE c.what = "append" -> [sets EXCEPT ![i] = Append(@, [p |-> c.p, m |-> c.m])]
       [] c.what = "copy" -> [sets EXCEPT ![o] = sets[i]]
       [] c.what = "shift" -> [sets EXCEPT ![i] = Shift(@, c.d)]
       [] c.what = "thin" -> IF c.into = 0 THEN [sets EXCEPT ![i] = ThinSet(@, c.sc)] ELSE [sets EXCEPT ![o] = ThinSet(sets[i], c.sc)]
       [] c.what = "setdata" -> [sets EXCEPT ![o] = [k \in 1..Len(sets[i]) |-> [p |-> sets[i][k].p, m |-> -1]]]
       [] c.what = "fromdata" -> [sets EXCEPT ![o] = sets[i]]
       [] c.what = "new" -> [sets EXCEPT ![i] = <<>>]
       [] c.what = "same" -> [sets EXCEPT ![1] = c.s1, ![2] = c.s2]
       [] OTHER -> sets
SetEv(c) ==
  LET n == After(c) IN
  IF c.exc # "" THEN {"C17.sets_accept_polygons"}
  ELSE UNION {Unless(c.view[k] = View(n[k]), "C17.sets_keep_their_polygons") : k \in 1..2}
       \cup Unless(c.eq = (n[1] = n[2]) /\ c.ne = (n[1] # n[2]) /\ c.refl, "C17.sets_equal_when_the_same_polygons")
       \cup (IF c.what # "thin" THEN {} ELSE Unless(c.one = [k \in 1..Len(sets[c.i + 1]) |-> IF sets[c.i + 1][k].p = <<>> THEN <<>> ELSE Thin(sets[c.i + 1][k].p, c.sc)], "C17.thinning_keeps_what_is_drawn"))

(* boxes *)
NewBox(c) == CASE c.what = "merge" -> Merge(box, c.b) [] c.what = "from" -> BoxOf(c.pts)
               [] c.what = "frombb" -> (LET RECURSIVE F(_) F(i) == IF i > Len(c.bs) THEN <<>> ELSE Merge(c.bs[i], F(i + 1)) IN F(1))
               [] c.what = "ctor" -> IF c.b[1] <= c.b[3] /\ c.b[2] <= c.b[4] THEN c.b ELSE box
               [] OTHER -> box
BoxEv(c) ==
  LET b == NewBox(c) IN
     Unless(c.box = b, "C17.boxes_are_tight")
     \cup (IF c.what = "ctor" THEN Unless((c.exc = "") = (c.b[1] <= c.b[3] /\ c.b[2] <= c.b[4]), "C17.boxes_refuse_misordered_corners") ELSE Unless(c.exc = "", "C17.boxes_are_tight"))
     \cup (IF b = <<>> THEN {} ELSE
           Unless(c.dims = <<b[3] - b[1], b[4] - b[2], b[1] + b[3], b[2] + b[4]>>, "C17.boxes_are_tight")
           \cup Unless(RangeOf(c.corners) = {<<b[1], b[2]>>, <<b[1], b[4]>>, <<b[3], b[4]>>, <<b[3], b[2]>>}, "C17.boxes_are_tight")
           \cup Unless(c.sides = b, "C17.boxes_are_tight"))
     \cup (IF c.what # "rel" THEN {} ELSE
           Unless(c.over = <<Overlap(b, c.b), Overlap(c.b, b)>>, "C17.boxes_compare")
           \cup Unless(c.in = <<BoxIn(b, c.b), BoxIn(c.b, b)>>, "C17.boxes_compare")
           \cup Unless(c.has = BoxHas(b, c.pt), "C17.boxes_compare")
           \cup Unless(c.eq = (b = c.b), "C17.boxes_compare"))
Bad(c) == CASE c.op = "begin" -> {} [] c.op = "failed" -> {"C17.geometry_answers"}
            [] c.op = "poly" -> PolyEv(c) [] c.op = "mono" -> MonoEv(c) [] c.op = "bna" -> BnaEv(c)
            [] c.op = "set" -> SetEv(c) [] c.op = "box" -> BoxEv(c)
Init == l = 1 /\ sets = <<<<>>, <<>>>> /\ box = <<>>
Step == /\ l <= Len(Trace)
        /\ LET c == Trace[l]
               b == Bad(c)
           IN /\ (b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b)))
              /\ sets' = IF c.op = "begin" THEN <<<<>>, <<>>>> ELSE IF c.op = "set" /\ c.exc = "" THEN After(c) ELSE sets
              /\ box' = IF c.op = "begin" THEN <<>> ELSE IF c.op = "box" THEN NewBox(c) ELSE box
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, sets, box>>
=============================================================================
