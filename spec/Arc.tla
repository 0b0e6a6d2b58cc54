---------------------------------- MODULE Arc ----------------------------------
(* save archives: which are accepted, where their contents end up, where objects are saved, and how saves of old versions are brought up to date.
   An entry of an archive is [dirs (the folders of its path), name, folder, abs, json, fs, cs (uncompressed and compressed size), id, refs]. *)
EXTENDS Util, Sequences, FiniteSets
(* ---- accepted archives ---- *)
Dotted(e) == e.dots          (* ".." somewhere in the path *)
EntryOk(e, maxjson, ratio) == /\ ~(e.json /\ e.fs > maxjson) /\ (e.cs > 0 => e.fs <= ratio * e.cs) /\ ~e.dots /\ ~e.abs
Accepted(a) == a.iszip /\ ~a.corrupt /\ \A i \in 1..Len(a.entries) : EntryOk(a.entries[i], a.maxjson, a.ratio)
(* ---- extraction: entries flattened into one folder ---- *)
MAC == "__MACOSX"
Folders(es) == {i \in 1..Len(es) : es[i].folder /\ (es[i].dirs = <<>> \/ es[i].dirs[1] # MAC)}
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Prefix(es) == IF Cardinality(Folders(es)) = 1 THEN es[CHOOSE i \in Folders(es) : TRUE].dirs ELSE <<>>
Taken(es, p) == {i \in 1..Len(es) : ~es[i].folder /\ StartsWith(es[i].dirs, p)}
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
Target(e, clean) == IF clean THEN e.clean ELSE e.name
(* the folder afterwards: <<name, content>> *)
Extracted(es, p, clean) == LET T == Taken(es, p) N == {Target(es[i], clean) : i \in T} IN
   {<<n, es[LastOf({i \in T : Target(es[i], clean) = n})].id>> : n \in N}
(* ---- saving ---- *)
(* there: what lies at the place: "none", "zip", "other" *)
SaveOk(kind, there, over) == over \/ there = "none" \/ (kind = "file" /\ there = "zip")
Keeps(kind, there, over) == kind = "file" /\ there = "zip" /\ ~over          (* what was in the archive stays *)
(* ---- bringing saves up to date ---- *)
CURRENT == 5
STEPS == << (* 0 -> 1, 1 -> 2 *) [t \in {} |-> ""], [t \in {} |-> ""],
  (* 2 -> 3 *)
  [t \in {"gnome.spill.spill.Spill", "gnome.spill.release.PointLineRelease", "gnome.spill.release.SpatialRelease", "gnome.spill.substance.NonWeatheringSubstance", "gnome.spill.initializers.InitWindages",
          "gnome.movers.current_movers.GridCurrentMover", "gnome.movers.current_movers.CatsMover", "gnome.movers.wind_movers.WindMover", "gnome.movers.wind_movers.GridWindMover"} |->
   CASE t = "gnome.spill.spill.Spill" -> "gnome.spills.spill.Spill"
     [] t = "gnome.spill.release.PointLineRelease" -> "gnome.spills.release.PointLineRelease"
     [] t = "gnome.spill.release.SpatialRelease" -> "gnome.spills.release.PolygonRelease"
     [] t = "gnome.spill.substance.NonWeatheringSubstance" -> "gnome.spills.substance.NonWeatheringSubstance"
     [] t = "gnome.spill.initializers.InitWindages" -> "gnome.spills.initializers.InitWindages"
     [] t = "gnome.movers.current_movers.GridCurrentMover" -> "gnome.movers.c_current_movers.c_GridCurrentMover"
     [] t = "gnome.movers.current_movers.CatsMover" -> "gnome.movers.c_current_movers.CatsMover"
     [] t = "gnome.movers.wind_movers.WindMover" -> "gnome.movers.c_wind_movers.WindMover"
     [] OTHER -> "gnome.movers.c_wind_movers.c_GridWindMover"],
  (* 3 -> 4 *) [t \in {} |-> ""],
  (* 4 -> 5 *)
  [t \in {"gnome.movers.py_current_movers.PyCurrentMover", "gnome.movers.py_wind_movers.PyWindMover", "gnome.movers.c_wind_movers.WindMover"} |->
   CASE t = "gnome.movers.py_current_movers.PyCurrentMover" -> "gnome.movers.py_current_movers.CurrentMover"
     [] t = "gnome.movers.py_wind_movers.PyWindMover" -> "gnome.movers.py_wind_movers.WindMover"
     [] OTHER -> "gnome.movers.c_wind_movers.PointWindMover"]>>
Renamed(v, t) == IF t \in DOMAIN STEPS[v + 1] THEN STEPS[v + 1][t] ELSE t
WINDAGE == "gnome.spill.initializers.InitWindages"
WDATA == "gnome.weatherers.weathering_data.WeatheringData"
(* a file: [type, n, list (files it lists), range (windage range: its first value)] ; a folder: names -> files *)
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
OIL == "gnome.spill.substance.GnomeOil"
NOOIL == "gnome.spill.substance.NonWeatheringSubstance"
(* 1 -> 2: an oil that can no longer be used becomes a substance that doesn't weather, with its initializers *)
Step0(f) == [x \in DOMAIN f |-> IF f[x].type = OIL THEN [f[x] EXCEPT !.type = NOOIL, !.n = 0] ELSE f[x]]
Step1(f) ==      (* 1 -> 2: windages move from their own files into the substances that list them *)
  LET subs == {x \in DOMAIN f : f[x].inits # <<>>}
      W(x) == {i \in 1..Len(f[x].inits) : f[f[x].inits[i]].type = WINDAGE}
      gone == UNION {{f[x].inits[i] : i \in W(x)} : x \in subs}
  IN Without([x \in DOMAIN f |-> IF x \in subs /\ W(x) # {} THEN [f[x] EXCEPT !.range = f[f[x].inits[LastOf(W(x))]].range, !.inits = <<>>] ELSE f[x]], gone)
Step3(f) ==      (* 3 -> 4: weathering data is gone, from the lists too *)
  LET gone == {x \in DOMAIN f : f[x].type = WDATA} IN
  Without([x \in DOMAIN f |-> [f[x] EXCEPT !.list = SelectSeq(@, LAMBDA y : y \notin gone)]], gone)
Upgrade1(v, f) == LET g == IF v = 1 THEN Step1(Step0(f)) ELSE IF v = 3 THEN Step3(f) ELSE f IN [x \in DOMAIN g |-> [g[x] EXCEPT !.type = Renamed(v, @)]]
RECURSIVE Upgraded(_, _)
Upgraded(v, f) == IF v >= CURRENT THEN f ELSE Upgraded(v + 1, Upgrade1(v, f))
=============================================================================
