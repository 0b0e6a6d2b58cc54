----------------------------- MODULE SeriesTrace -----------------------------
(* validates recorded winds, currents and series of the real code *)
EXTENDS Series, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w
NONE == [ts |-> <<>>, unit |-> "m/s", ext |-> FALSE, tz |-> NOZONE]
KEEPS == {"setdata", "prop", "prop_list", "update"}         (* ways of giving new data to the wind at hand *)
(* constant_wind: any time will do *)
After(c) == CASE c.op = "set" /\ c.how \in KEEPS -> [w EXCEPT !.ts = Given(c.vals, c.unit, c.sys), !.unit = c.unit]
              [] c.op = "set" -> [ts |-> Given(c.vals, c.unit, c.sys), unit |-> c.unit, ext |-> c.ext, tz |-> c.tz]
              [] c.op = "units" -> [w EXCEPT !.unit = c.unit]
              [] c.op = "ext" -> [w EXCEPT !.ext = c.ext]
              [] c.op = "tz" -> Rezone(w, c.tz)
              [] c.op = "gust" /\ c.valid -> [w EXCEPT !.ts = Scaled(@, Gust(c.s, c.up))]
              [] OTHER -> w
VecNear(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t)
RT(r, c, unit) == FromDir(ToMm(r, unit), c)
(* an answer <<a, b>> in thousandths of a unit (or hundredths of a degree) against mm/s *)
Says(ans, want, sys, unit, t) ==
  IF sys = "uv" THEN VecNear(ans, <<FromMm(want[1], unit), FromMm(want[2], unit)>>, 2 + FromMm(t, unit))
  ELSE ans[1] >= 0 /\ ans[2] \in 0..36000 /\ VecNear(RT(ans[1], ans[2], unit), want, t + 1 + (Abs(want[1]) + Abs(want[2])) \div 9000)
TOL == 4
(* the wind shows its state *)
Shows(n, s, t) ==
  Unless(s.n = Len(n.ts) /\ s.times = [i \in 1..Len(n.ts) |-> n.ts[i][1]] /\ s.tdata = s.times, "C13.times_as_given")
  \cup Unless(Len(s.uv) = Len(n.ts) /\ \A i \in 1..Len(s.uv) : VecNear(s.uv[i], Tail(n.ts[i]), t), "C13.values_as_given")
  \cup Unless(Len(s.prop) = Len(n.ts) /\ \A i \in 1..Len(s.prop) : s.prop[i][1] = n.ts[i][1] /\ Says(Tail(s.prop[i]), Tail(n.ts[i]), "r-theta", n.unit, t), "C13.timeseries_in_its_units")
  \cup Unless(s.unit = n.unit, "C13.units_as_set") \cup Unless(s.ext = n.ext, "C13.permission_kept") \cup Unless(s.tz = n.tz, "C13.zone_as_set")
  \cup Unless(s.start = First(n.ts) /\ s.stop = Last(n.ts), "C13.bounds_are_the_data")
Tol(n) == IF n = "gust" THEN 60 ELSE TOL
SetEv(c) == Unless(c.same, "C13.arguments_untouched")
            \cup Unless(c.how \notin {"file3", "file4", "file5", "fromfile"} \/ c.place = c.got, "C13.files_read_as_written")
(* the times asked for, and whether an answer is due *)
Due(c) == LET e == IF c.exarg = "none" THEN w.ext ELSE c.exarg = "yes" IN \A i \in 1..Len(c.times) : Len(w.ts) = 1 \/ e \/ Covers(w.ts, c.times[i])
AskUnit(c) == IF c.unit # "" THEN c.unit ELSE IF c.via = "data" THEN w.unit ELSE "m/s"
Want(c, i) == ValueAt(w.ts, c.times[i])
Pick(ans, part) == IF part = "both" THEN ans ELSE IF part = "first" THEN <<ans[1]>> ELSE <<ans[2]>>
(* one component alone: u, v, r or the direction *)
PartOk(x, want, c, unit) ==
  IF c.part = "both" THEN Says(x, want, c.sys, unit, TOL)
  ELSE IF c.sys = "uv" THEN Near(x[1], FromMm(want[IF c.part = "first" THEN 1 ELSE 2], unit), 2 + FromMm(TOL, unit))
  ELSE TRUE                                    (* checked against the answer with both, below *)
AskEv(c) ==
  IF ~Due(c) THEN Unless(c.exc # "", "C13.outside_is_refused")
  ELSE Unless(c.exc = "", "C13.inside_is_answered")
       \cup (IF c.exc # "" THEN {} ELSE
          Unless(Len(c.res) = Len(c.times) /\ \A i \in 1..Len(c.times) : Len(c.res[i]) >= 1 /\ \A k \in 1..Len(c.res[i]) : PartOk(c.res[i][k], Want(c, i), c, AskUnit(c)), "C13.linear_in_between")
          \cup Unless(c.parts, "C13.components_belong_together") \cup Unless(c.shape, "C13.one_answer_a_point") \cup Unless(c.same, "C13.arguments_untouched"))
RtEv(c) == Unless(c.eq, "C13.equal_after_saving")
XfEv(c) == UNION {LET x == c.vals[i] p == FromDir(x[2], x[3]) s == IF c.cur THEN -1 ELSE 1 IN
             Unless(VecNear(c.uv[i], <<s * p[1], s * p[2]>>, 3), "C13.directions_to_components")
             \cup Unless(VecNear(<<s * FromDir(c.back[i][1], c.back[i][2])[1], s * FromDir(c.back[i][1], c.back[i][2])[2]>>, <<s * p[1], s * p[2]>>, 4 + (Abs(p[1]) + Abs(p[2])) \div 9000) /\ c.back[i][2] \in 0..36000, "C13.components_to_directions") : i \in 1..Len(c.vals)}
           \cup Unless(c.refused, "C13.nonsense_is_refused") \cup Unless(c.same, "C13.arguments_untouched")
CurEv(c) == LET p == FromDir(ToMm(c.r, c.unit), c.d) u == IF c.ask = "" THEN "m/s" ELSE c.ask want == <<-p[1], -p[2]>> IN
            Unless(c.exc = "" /\ Len(c.res) = c.n /\ \A i \in 1..Len(c.res) : VecNear(c.res[i], <<FromMm(want[1], u), FromMm(want[2], u)>>, 2 + FromMm(3, u)), "C13.steady_currents")
            \cup Unless(c.shape, "C13.one_answer_a_point") \cup Unless(c.exc # "" \/ c.eq, "C13.equal_after_saving")
(* any series: vals <<t, a, b>> with one or two components *)
TsdEv(c) == LET due == Len(c.vals) = 1 \/ c.ext \/ c.exarg \/ (First(c.vals) <= c.t /\ c.t <= Last(c.vals))
                x == ValueAt(c.vals, c.t)
                u == IF c.ask = "" THEN c.unit ELSE c.ask
                want == <<FromMm(ToMm(x[1], c.unit), u), FromMm(ToMm(x[2], c.unit), u)>>
            IN IF ~due THEN Unless(c.exc # "", "C13.outside_is_refused")
               ELSE Unless(c.exc = "", "C13.inside_is_answered")
                    \cup Unless(c.exc # "" \/ \A i \in 1..Len(c.res) : \A k \in 1..c.dim : Near(c.res[i][k], want[k], 2 + FromMm(TOL, u)), "C13.linear_in_between")
                    \cup Unless(c.exc # "" \/ c.shape, "C13.one_answer_a_point")
BadEv(c) == Unless(c.exc # "", "C13.nonsense_is_refused")
Bad(c) == CASE c.op = "begin" -> {} [] c.op = "failed" -> {"C13.winds_answer"}
            [] c.op = "set" -> SetEv(c) [] c.op = "ask" -> AskEv(c) [] c.op = "rt" -> RtEv(c) [] c.op = "xf" -> XfEv(c)
            [] c.op = "cur" -> CurEv(c) [] c.op = "tsd" -> TsdEv(c) [] c.op = "bad" -> BadEv(c)
            [] c.op = "gust" -> Unless(c.ret = c.valid, "C13.uncertainty_scales_the_speed") [] OTHER -> {}
Snapped(c) == c.op \in {"set", "units", "ext", "tz", "gust", "ask", "rt", "bad"}
(* the values are taken over from what is shown, so that the tolerance does not grow *)
Settle(n, c) == IF c.op = "gust" /\ c.valid THEN [n EXCEPT !.ts = [i \in 1..Len(@) |-> <<@[i][1], c.snap.uv[i][1], c.snap.uv[i][2]>>]] ELSE n
Init == l = 1 /\ w = NONE
Step == /\ l <= Len(Trace)
        /\ LET c == Trace[l]
               n == IF c.op = "failed" THEN w ELSE After(c)
               b == Bad(c) \cup (IF Snapped(c) THEN Shows(n, c.snap, Tol(c.op)) ELSE {})
           IN /\ (b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b)))
              /\ w' = IF b = {} THEN Settle(n, c) ELSE n
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, w>>
=============================================================================
