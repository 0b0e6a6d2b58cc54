------------------------------ MODULE MapTrace ------------------------------
(* validates recorded line checks, element steps and queries on real maps *)
EXTENDS Land, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, cs, off
(* g: the current map; cs: elements of each container after the last step; off: mass that left, per container *)

Px(mp, x) == (x - mp.ox) \div mp.wx
Py(mp, y) == (mp.oy - y) \div mp.wy
Cx(mp, px) == mp.ox + px * mp.wx + mp.wx \div 2
Cy(mp, py) == mp.oy - py * mp.wy - mp.wy \div 2
Inb(mp, x, y) == x > mp.bx[1] /\ x <= mp.bx[3] /\ y > mp.bx[2] /\ y <= mp.bx[4]
Cell(mp, x, y) == <<Px(mp, x), Py(mp, y)>>

(* element: <<id, status, x, y, z, lwx, lwy, mass>> *)
Get(els, id) == els[CHOOSE i \in 1..Len(els) : els[i][1] = id]
Ids(els) == {els[i][1] : i \in 1..Len(els)}
At(e, x, y) == Near(e[3], x, 1) /\ Near(e[4], y, 1)

Refloated(mp, b, s) ==
  IF b[2] = LandS
  THEN \/ s[2] = LandS /\ At(s, b[3], b[4]) /\ s[5] = b[5]
       \/ s[2] = WaterS /\ mp.hl >= 0 /\ At(s, b[6], b[7])
  ELSE s[2] = b[2] /\ s[3] = b[3] /\ s[4] = b[4] /\ s[5] = b[5]

(* where an element seen as s and pushed by d must end up: [x, y, st, lwx, lwy, hit] *)
Dest(mp, s, d) ==
  IF s[2] = LandS THEN [x |-> s[3], y |-> s[4], st |-> LandS, lx |-> s[6], ly |-> s[7], hit |-> FALSE]
  ELSE LET tx == s[3] + d[2]
           ty == s[4] + d[3]
           f == First(mp, Cell(mp, s[3], s[4]), Cell(mp, tx, ty))
       IN IF ~f.hit THEN [x |-> tx, y |-> ty, st |-> WaterS, lx |-> None9, ly |-> None9, hit |-> FALSE]
          ELSE IF mp.hl = 0 THEN [x |-> Cx(mp, f.prev[1]), y |-> Cy(mp, f.prev[2]), st |-> WaterS, lx |-> None9, ly |-> None9, hit |-> TRUE]
          ELSE [x |-> Cx(mp, f.at[1]), y |-> Cy(mp, f.at[2]), st |-> LandS, lx |-> Cx(mp, f.prev[1]), ly |-> Cy(mp, f.prev[2]), hit |-> TRUE]

(* an element on land stays where it is, or is put to the middle of its cell *)
Stays(mp, e, k, s) == LET q == Cell(mp, s[k], s[k + 1])
                      IN \/ Near(e[k], s[k], 1) /\ Near(e[k + 1], s[k + 1], 1)
                         \/ Near(e[k], Cx(mp, q[1]), 1) /\ Near(e[k + 1], Cy(mp, q[2]), 1)
(* released: in the water, or on land where the position is land, not to be floated anywhere else *)
NewOk(mp, e) == IF IsLand(mp, Px(mp, e[3]), Py(mp, e[4])) THEN e[2] = WaterS \/ (e[2] = LandS /\ Cell(mp, e[6], e[7]) = Cell(mp, e[3], e[4]))
                ELSE e[2] = WaterS
StepBad(mp, ev, c) ==
  LET before == cs[c]
      seen == ev.seen[c]
      after == ev.after[c]
      ds == [i \in 1..Len(seen) |-> Dest(mp, seen[i], ev.req[c][i])]
      stay == {i \in 1..Len(seen) : Inb(mp, ds[i].x, ds[i].y)}
      wet == {i \in stay : seen[i][2] = WaterS /\ seen[i][1] \in Ids(after)}
      dry == {i \in stay : seen[i][2] = LandS /\ seen[i][1] \in Ids(after)}
      A(i) == Get(after, seen[i][1])
      lost == [i \in 1..Len(seen) |-> IF i \in stay THEN 0 ELSE seen[i][8]]
      landm == [i \in 1..Len(after) |-> IF after[i][2] = LandS THEN after[i][8] ELSE 0]
      landold == [i \in 1..Len(after) |-> IF after[i][2] = LandS /\ after[i][1] \in Ids(seen) THEN after[i][8] ELSE 0]
      newa == SelectSeq(after, LAMBDA e : e[1] \notin Ids(seen))
  IN Unless(ev.exc = "", "C08.step_completes")
     \cup Unless(Len(seen) >= Len(before) /\ \A i \in 1..Len(before) : seen[i][1] = before[i][1] /\ Refloated(mp, before[i], seen[i]),
                 "C08.refloat_to_last_water_position_or_stay")
     \cup Unless(\A i \in (Len(before) + 1)..Len(seen) : NewOk(mp, seen[i]), "C08.released_in_the_water_or_beached_in_place")
     \cup Unless(\A i \in stay : seen[i][1] \in Ids(after), "C08.elements_on_the_map_are_kept")
     \cup Unless(\A i \in (1..Len(seen)) \ stay : seen[i][1] \notin Ids(after), "C08.elements_off_the_map_are_removed")
     \cup Unless(\A i \in wet : ds[i].hit => A(i)[2] = ds[i].st /\ At(A(i), ds[i].x, ds[i].y), "C07.land_stops_elements_at_the_first_land_cell")
     \cup Unless(\A i \in wet : ds[i].hit => A(i)[2] = ds[i].st /\ At(A(i), ds[i].x, ds[i].y), "C08.beached_at_the_land_cell_or_put_back_at_once")
     \cup Unless(\A i \in wet : ~ds[i].hit => A(i)[2] = WaterS /\ At(A(i), ds[i].x, ds[i].y), "C07.open_water_does_not_stop_elements")
     \cup Unless(\A i \in wet : (~IsLand(mp, Px(mp, seen[i][3]), Py(mp, seen[i][4])) /\ A(i)[2] = WaterS)
                   => ~IsLand(mp, Px(mp, A(i)[3]), Py(mp, A(i)[4])), "C07.floating_elements_are_never_on_land")
     \cup Unless(\A i \in wet : (ds[i].hit /\ ds[i].st = LandS) => Near(A(i)[6], ds[i].lx, 1) /\ Near(A(i)[7], ds[i].ly, 1),
                 "C08.last_water_position_is_the_cell_before_land")
     \cup Unless(\A i \in dry : A(i)[2] = LandS /\ Stays(mp, A(i), 3, seen[i]) /\ A(i)[5] = seen[i][5]
                   /\ Stays(mp, A(i), 6, seen[i]), "C08.beached_elements_stay_put")
     \cup Unless(\A i \in wet : A(i)[5] = Max2(0, seen[i][5] + ev.req[c][i][4]), "C08.no_element_above_the_surface")
     \cup Unless(\A i \in 1..Len(newa) : NewOk(mp, newa[i]), "C08.released_in_the_water_or_beached_in_place")
     \cup Unless(Near(ev.mb[c][1], SumSeq(landm), 2 + Len(after)) \/ Near(ev.mb[c][1], SumSeq(landold), 2 + Len(after)), "C08.beached_mass_is_the_mass_on_land")
     \cup Unless(Near(ev.mb[c][2], off[c] + SumSeq(lost), 2 + 4 * Len(seen)), "C08.off_map_mass_adds_up")

(* k of n beached elements refloated in a step of r half-lives: within six standard deviations of n (1 - 2^-r) *)
Pow2(r) == CASE r = 1 -> 2 [] r = 2 -> 4 [] OTHER -> 8
Refl(ev) == LET q == Pow2(ev.r)
                d == ev.k * q - ev.n * (q - 1)
            IN Unless(d * d <= 36 * ev.n * (q - 1), "C08.refloat_probability_follows_half_life")

(* the recorded edges are half a micro-degree further up *)
InBoxes(bs, x, y) == \E i \in 1..Len(bs) : x > bs[i][1] /\ x <= bs[i][3] /\ y > bs[i][2] /\ y <= bs[i][4]
Query(mp, ev) ==
  LET land(q) == IsLand(mp, Px(mp, q[1]), Py(mp, q[2]))
  IN Unless(ev.exc = "", "C07.queries_answer")
     \cup Unless(\A i \in 1..Len(ev.q) : LET q == ev.q[i] IN q[3] = land(q) /\ q[4] = land(q), "C07.on_land_agrees_with_the_raster")
     \cup Unless(\A i \in 1..Len(ev.q) : LET q == ev.q[i] IN q[5] = (Inb(mp, q[1], q[2]) /\ ~land(q)), "C07.in_water_is_on_the_map_and_not_land")
     \cup Unless(\A i \in 1..Len(ev.q) : LET q == ev.q[i] IN q[6] = Inb(mp, q[1], q[2]), "C08.on_map_is_within_the_bounds")
     \cup Unless(\A i \in 1..Len(ev.q) : LET q == ev.q[i] IN
           q[7] = (Inb(mp, q[1], q[2]) /\ ~land(q) /\ (Len(mp.spill) = 0 \/ InBoxes(mp.spill, q[1], q[2]))), "C08.spillable_positions")
(* map drawn from polygons: rectangles of land and lakes, judged away from their edges *)
Far(r, x, y, t) == Abs(x - r[1]) > t /\ Abs(x - r[3]) > t /\ Abs(y - r[2]) > t /\ Abs(y - r[4]) > t
Bna(ev) ==
  LET deep(q) == (\A i \in 1..Len(ev.rects) : Far(ev.rects[i], q[1], q[2], ev.tol))
                 /\ (\A i \in 1..Len(ev.spill) : Far(ev.spill[i], q[1], q[2], 1)) /\ Far(ev.bx, q[1], q[2], 1)
      \* later polygons are drawn over earlier ones
      ins(q) == {i \in 1..Len(ev.rects) : InBoxes(<<ev.rects[i]>>, q[1], q[2])}
      land(q) == ins(q) # {} /\ LET top == CHOOSE i \in ins(q) : \A j \in ins(q) : j <= i IN ev.rects[top][5] = 1
      onmap(q) == q[1] > ev.bx[1] /\ q[1] < ev.bx[3] /\ q[2] > ev.bx[2] /\ q[2] < ev.bx[4]
  IN Unless(ev.exc = "", "C07.map_from_polygons_is_built")
     \cup Unless(\A i \in 1..Len(ev.q) : deep(ev.q[i]) => ev.q[i][3] = land(ev.q[i]) /\ ev.q[i][4] = land(ev.q[i]), "C07.polygons_are_land_on_the_raster")
     \cup Unless(\A i \in 1..Len(ev.q) : deep(ev.q[i]) => ev.q[i][5] = (onmap(ev.q[i]) /\ ~land(ev.q[i])), "C07.polygons_are_land_on_the_raster")
     \cup Unless(\A i \in 1..Len(ev.q) : Far(ev.bx, ev.q[i][1], ev.q[i][2], 1) => ev.q[i][6] = onmap(ev.q[i]), "C08.on_map_is_within_the_bounds")
     \cup Unless(\A i \in 1..Len(ev.q) : deep(ev.q[i]) => ev.q[i][7] = (onmap(ev.q[i]) /\ ~land(ev.q[i])
                     /\ (Len(ev.spill) = 0 \/ InBoxes(ev.spill, ev.q[i][1], ev.q[i][2]))), "C08.spillable_positions")

Case(ev) == LET gr == [m |-> Len(ev.c), n |-> Len(ev.c[1]), c |-> ev.c]
                f == First(gr, ev.a, ev.b)
            IN Unless(ev.exc = "" /\ ev.hit = f.hit, "C07.line_hits_land_exactly_when_it_crosses_it")
               \cup Unless(ev.exc # "" \/ ~(ev.hit /\ f.hit) \/ (ev.at = f.at /\ ev.prev = f.prev), "C07.first_land_cell_and_the_one_before")

Bad(ev) == CASE ev.op = "case" -> Case(ev)
             [] ev.op = "mstep" -> UNION {StepBad(g, ev, c) : c \in 1..Len(ev.after)}
             [] ev.op = "query" -> Query(g, ev)
             [] ev.op = "bna" -> Bna(ev)
             [] ev.op = "refl" -> Refl(ev)
             [] OTHER -> {}
Init == l = 1 /\ g = <<>> /\ cs = <<>> /\ off = <<>>
Step == /\ l <= Len(Trace)
        /\ LET ev == Trace[l]
               b == Bad(ev)
           IN /\ (b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b)))
              /\ g' = IF ev.op = "map" THEN ev.map ELSE g
              /\ cs' = IF ev.op = "map" THEN <<<<>>, <<>>>> ELSE IF ev.op = "mstep" THEN ev.after ELSE cs
              /\ off' = IF ev.op = "map" THEN <<0, 0>> ELSE IF ev.op = "mstep" THEN [c \in 1..Len(ev.mb) |-> ev.mb[c][2]] ELSE off
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, g, cs, off>>
==============================================================================
