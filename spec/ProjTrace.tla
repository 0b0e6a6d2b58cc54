------------------------------ MODULE ProjTrace ------------------------------
(* validates recorded projections of the real code *)
EXTENDS Proj, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p
WORLD == <<-1800, -900, 1800, 900>>
After(c) == CASE c.op = "new" -> [kind |-> c.kind, box |-> IF c.box = <<>> THEN WORLD ELSE c.box, size |-> IF c.size = <<>> THEN <<600, 600>> ELSE c.size]
              [] c.op = "scale" -> [p EXCEPT !.box = c.box, !.size = IF c.size = <<>> THEN @ ELSE c.size]
              [] OTHER -> p
AllSame(fs) == \A f \in 1..Len(fs) : fs[f] = fs[1]
PixNear(n, want, got) == Near(want[1], got[1], PixTol(n) + Abs(want[1]) \div 100000) /\ Near(want[2], got[2], PixTol(n) + Abs(want[2]) \div 100000)
DegNear(n, want, got) == LET m == Mid(n.box) IN Near(want[1], got[1], DegTol(n, want[1] - 1000 * m[1])) /\ Near(want[2], got[2], DegTol(n, want[2] - 1000 * m[2]))
Shown(n, b) == LET w == ImageBox(n) IN DegNear(n, <<w[1], w[2]>>, <<b[1], b[2]>>) /\ DegNear(n, <<w[3], w[4]>>, <<b[3], b[4]>>)
Settings(n, c) == Unless(c.isize = n.size, "C22.image_size_kept") \cup Unless(Shown(n, c.ibox), "C22.image_box_is_what_the_image_shows")
                  \cup Unless(c.same, "C22.arguments_untouched")
(* ints: the pixel each point falls in, between the two neighbours where the point is on the line *)
Falls(c) == \A i \in 1..Len(c.ints) : \A k \in 1..2 : c.ints[i][k] >= c.lo[i][k] /\ c.ints[i][k] <= c.hi[i][k]
PixEv(c) == Unless(Len(c.forms[1]) = Len(c.pts) /\ \A i \in 1..Len(c.pts) : PixNear(p, ToPix(p, c.pts[i]), c.forms[1][i]), "C22.positions_to_pixels")
            \cup Unless(AllSame(c.forms), "C22.all_forms_alike") \cup Unless(c.same, "C22.arguments_untouched")
            \cup Unless(Len(c.ints) = Len(c.pts) /\ Falls(c), "C22.whole_pixels_contain_the_point")
            \cup Unless(\A i \in 1..Len(c.pts) : DegNear(p, <<1000 * c.pts[i][1], 1000 * c.pts[i][2]>>, c.back[i]), "C22.there_and_back")
DegEv(c) == Unless(Len(c.forms[1]) = Len(c.pix) /\ \A i \in 1..Len(c.pix) : DegNear(p, ToDeg(p, c.pix[i]), c.forms[1][i]), "C22.pixels_to_positions")
            \cup Unless(AllSame(c.forms), "C22.all_forms_alike") \cup Unless(c.same, "C22.arguments_untouched")
            \cup Unless(Len(c.mid) = Len(c.cells) /\ \A i \in 1..Len(c.cells) : DegNear(p, ToDeg(p, <<100 * c.cells[i][1] + 50, 100 * c.cells[i][2] + 50>>), c.mid[i]), "C22.whole_pixels_mean_their_centre")
            \cup Unless(c.again = c.cells, "C22.whole_pixels_mean_their_centre")
RtEv(c) == Unless(c.eq, "C22.the_same_after_saving") \cup Unless(Shown(p, c.ibox) /\ c.isize = p.size, "C22.the_same_after_saving")
           \cup Unless(c.other, "C22.different_projections_differ")
MetEv(c) == UNION {LET d == c.d[i] IN
              Unless(Near(c.deg[i][1], MLon(d[1], d[4]), 3 + 3 * (1000000 \div Cos6(d[4]))) /\ Near(c.deg[i][2], MLat(d[2]), 2) /\ c.deg[i][3] = 1000 * d[3], "C22.metres_to_degrees")
              \cup Unless(\A k \in 1..3 : Near(c.back[i][k], 1000 * d[k], 2), "C22.metres_there_and_back")
              \cup Unless(Near(c.inv[i][1], MulFrac(11112 * (d[1] \div 100), Cos6(d[4])), 20) /\ Near(c.inv[i][2], 11112 * (d[2] \div 100), 1 + Abs(d[2]) \div 1000), "C22.degrees_to_metres") : i \in 1..Len(c.d)}
            \cup Unless(AllSame(c.forms), "C22.all_forms_alike") \cup Unless(c.same, "C22.arguments_untouched")
CircEv(c) == LET sl == Sin6(c.lat) cl == Cos6(c.lat) sd == Sin6(c.dist) cd == Cos6(c.dist) IN
             UNION {LET r == c.res[i] IN       (* sin lat2, cos lat2, sin dlon, cos dlon *)
               Unless(/\ Near(r[1], MulFrac(sl, cd) + MulFrac(MulFrac(cl, sd), Cos6(c.bear)), 6)
                      /\ Near(MulFrac(r[3], r[2]), MulFrac(Sin6(c.bear), sd), 6)
                      /\ Near(cd, MulFrac(sl, r[1]) + MulFrac(MulFrac(cl, r[2]), r[4]), 6), "C22.great_circles") : i \in 1..Len(c.res)}
GridEv(c) ==
  LET nx == Len(c.lon) ny == Len(c.lat)
      want(q) == <<GridPos(c.lon, q[1]), 100 * (ny - 1) - GridPos(c.lat, q[2])>>
      deg(x) == <<GridDeg(c.lon, x[1]), GridDeg(c.lat, 100 * (ny - 1) - x[2])>>
      Ok(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t)
  IN Unless(Len(c.forms[1]) = Len(c.pts) /\ \A i \in 1..Len(c.pts) : Ok(want(c.pts[i]), c.forms[1][i], 1), "C22.unequal_grids")
     \cup Unless(Len(c.pixd) = Len(c.pix) /\ \A i \in 1..Len(c.pix) : Ok(deg(c.pix[i]), c.pixd[i], 1), "C22.unequal_grids")
     \cup Unless(\A i \in 1..Len(c.cells) : Ok(deg(<<100 * c.cells[i][1] + 50, 100 * c.cells[i][2] + 50>>), c.mid[i], 1), "C22.whole_pixels_mean_their_centre")
     \cup Unless(AllSame(c.forms), "C22.all_forms_alike") \cup Unless(c.same, "C22.arguments_untouched")
     \cup Unless(Falls(c), "C22.whole_pixels_contain_the_point")
Bad(c) == CASE c.op = "begin" -> {} [] c.op = "failed" -> {"C22.projections_answer"}
            [] c.op \in {"new", "scale"} -> Settings(After(c), c) [] c.op = "pix" -> PixEv(c) [] c.op = "deg" -> DegEv(c)
            [] c.op = "rt" -> RtEv(c) [] c.op = "met" -> MetEv(c) [] c.op = "circle" -> CircEv(c) [] c.op = "grid" -> GridEv(c)
Init == l = 1 /\ p = [kind |-> "geo", box |-> WORLD, size |-> <<600, 600>>]
Step == /\ l <= Len(Trace)
        /\ LET c == Trace[l]
               b == Bad(c)
           IN /\ (b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b)))
              /\ p' = IF c.op = "failed" THEN p ELSE After(c)
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, p>>
=============================================================================
