------------------------------- MODULE Weather -------------------------------
(* The mass ledger of a run: elements made of components, processes that take mass from them,
   and the buckets the mass is booked to.  Fates say which processes may touch an element. *)
EXTENDS Util
NonW == 1
Surf == 2
Subs == 4
SkimF == 10      \* marked for skimming, still weathering on the surface
BurnF == 16
DispF == 32
Marks == {SkimF, BurnF, DispF}
Fates == {NonW, Surf, Subs} \cup Marks
WaterS == 2
LandS == 3

(* what a move leaves as an element's fate *)
FateAfterMove(weatherable, st, z, old) ==
  IF ~weatherable THEN NonW
  ELSE IF st = LandS THEN NonW
  ELSE IF old \in Marks THEN old
  ELSE IF z = 0 THEN Surf ELSE Subs

(* the processes that may take mass from an element of a fate *)
MayTake(f) == CASE f = Surf -> {"evap", "disp", "beach"}
                [] f = SkimF -> {"evap", "disp", "beach", "skim"}
                [] f = BurnF -> {"burn"}
                [] f = DispF -> {"chem"}
                [] OTHER -> {}
Buckets(k) == CASE k = "evap" -> {2} [] k = "disp" -> {3, 4} [] k = "skim" -> {5} [] k = "burn" -> {6} [] k = "chem" -> {7}
                [] k = "beach" -> {8} [] OTHER -> {}

(* time span [t, t + dt] within the window [a0, a1] *)
Overlap(t, dt, a0, a1) == Max2(0, Min2(t + dt, a1) - Max2(t, a0))
(* part of a total that is due over an overlap of a window, rounded down *)
Share(total, ov, len) == IF len <= 0 THEN 0 ELSE (total \div len) * ov + ((total % len) * ov) \div len
(* series of amounts, each spread over the time since the one before *)
RECURSIVE SeriesFrom(_, _, _, _, _)
SeriesFrom(s, i, from, t, dt) ==
  IF i > Len(s) THEN 0
  ELSE Share(s[i][2] \div 1000, Overlap(t, dt, from, s[i][1]), s[i][1] - from) + SeriesFrom(s, i + 1, s[i][1], t, dt)
==============================================================================
