--------------------------------- MODULE Out ---------------------------------
(* What outputters leave behind: of a log of computed steps, the scheduled ones, each as it was computed.
   C20 C21.    A step of the log is [t, conts, arr, mb]:
     conts: the rows of the certain and (if any) the uncertain elements
     arr:   per container, <<name, digest>> of every array
     mb:    the certain container's mass balance, <<name, digits9, digits8>>
   A row is <<id, spill, status, lon, lat, depth, mass, age, density, viscosity, water>>. *)
EXTENDS Sim

(* ---- the log, and what is due of it ---- *)
Due(m, o, log) == LET w == Written(m, o, 0, Len(log) - 1) IN [i \in 1..Len(w) |-> log[w[i] + 1]]

(* ---- the ragged encoding of a container's history in one flat array ---- *)
NewFile == [count |-> <<>>, flat |-> <<>>]
AppendRec(f, rows) == [count |-> Append(f.count, Len(rows)), flat |-> f.flat \o rows]
StartOf(f, i) == SumSeq(SubSeq(f.count, 1, i - 1))
ReadRec(f, i) == SubSeq(f.flat, StartOf(f, i) + 1, StartOf(f, i) + f.count[i])
NumRecs(f) == Len(f.count)

(* ---- what each kind of output keeps ---- *)
OnLand == 3
Cols(o) == CASE o.kind = "nc" -> {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
             [] o.kind = "shape" -> {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
             [] o.kind = "geo" -> {2, 3, 4, 5, 7}
             [] o.kind = "sjson" -> {2, 3, 4, 5, 7} \cup RangeOf(o.extra)
             [] o.kind = "kmz" -> {3, 4, 5}
             [] o.kind = "bin" -> {3, 4, 5, 8}
             [] OTHER -> {}
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * (IF n = 1 THEN 1 ELSE 10 * (IF n = 2 THEN 1 ELSE 10 * (IF n = 3 THEN 1 ELSE 10 * (IF n = 4 THEN 1 ELSE 10 * (IF n = 5 THEN 1 ELSE 10)))))
(* half of the last digit kept, in the units of the rows *)
Tol(o, c, v) ==
  CASE o.kind = "geo" /\ o.rnd -> (CASE c \in {4, 5} -> 2 + Pow10(6 - o.digits) \div 2 [] c = 7 -> 2 + (IF o.digits >= 3 THEN 0 ELSE Pow10(3 - o.digits) \div 2) [] OTHER -> 0)
    [] o.kind = "sjson" -> (CASE c \in {4, 5} -> 7 [] c = 7 -> 1 [] c = 10 -> 2 + Abs(v) \div 1000000 + 5 [] c = 11 -> 51 [] c = 9 -> 1 [] OTHER -> 1)
    [] o.kind = "kmz" -> 1
    [] o.kind = "bin" -> (CASE c \in {4, 5} -> 2 + Abs(v) \div 8000000 [] c = 8 -> 30 [] OTHER -> 0)
    [] OTHER -> (CASE c \in {1, 2, 3} -> 0 [] OTHER -> 1)
Status(o, v) == IF o.kind = "bin" THEN (IF v = OnLand THEN OnLand ELSE InWater) ELSE v
RowOk(o, e, r) == \A c \in Cols(o) : IF c = 3 THEN Status(o, e[3]) = r[3] ELSE Near(e[c], r[c], Tol(o, c, e[c]))
(* the rows of one container an output keeps, in its order *)
Kept(o, rows) == IF o.kind = "kmz" THEN SelectSeq(rows, LAMBDA e : e[3] = InWater) \o SelectSeq(rows, LAMBDA e : e[3] = OnLand)
                 ELSE rows
ById(rows, id) == SelectSeq(rows, LAMBDA e : e[1] = id)
RowsOk(o, rows, got) ==
  LET k == Kept(o, rows) IN
  /\ Len(k) = Len(got)
  /\ IF o.kind = "shape" THEN \A i \in 1..Len(k) : LET g == ById(got, k[i][1]) IN Len(g) = 1 /\ RowOk(o, k[i], g[1])
     ELSE \A i \in 1..Len(k) : RowOk(o, k[i], got[i])
Minute(t) == t - (t % 120)
Clock(o, t) == IF o.kind \in {"bin", "budget"} THEN Minute(t) ELSE t
Streams(o, conts) == conts

(* arrays a NetCDF file must hold *)
Standard == {"latitude", "longitude", "depth", "status_codes", "spill_num", "id", "mass", "age", "density", "viscosity", "frac_water"}
Skipped == {"next_positions", "last_water_positions", "windages", "mass_components", "half_lives", "init_mass", "interfacial_area",
            "fay_area", "bulk_init_volume", "frac_coverage", "bulltime", "partition_coeff", "evap_decay_constant", "yield_factor"}
Wanted(o, a) == CASE o.which = "standard" -> SelectSeq(a, LAMBDA x : x[1] \in Standard)
                  [] o.which = "most" -> SelectSeq(a, LAMBDA x : x[1] \notin Skipped)
                  [] OTHER -> a
ArrOk(o, want, got) == /\ RangeOf(Wanted(o, want)) = RangeOf(got)
(* the mass balance *)
Budget == {"amount_released", "evaporated", "natural_dispersion", "sedimentation", "beached", "floating", "off_maps"}
MbOk(o, want, got) ==
  CASE o.kind = "budget" -> LET w == {<<x[1], x[3]>> : x \in {y \in RangeOf(want) : y[1] \in Budget}} IN w = {<<x[1], x[3]>> : x \in RangeOf(got)}
    [] OTHER -> {<<x[1], x[2]>> : x \in RangeOf(want)} = {<<x[1], x[2]>> : x \in RangeOf(got)}
IsMb(o) == o.kind \in {"wx", "budget"}
==============================================================================
