-------------------------------- MODULE ArcGen --------------------------------
EXTENDS Arc, TLC, Json, Integers
CONSTANTS LEN
VARIABLES hist
R(S) == RandomElement(S)
NAMES == {"Model.json", "a.json", "b.json", "wind.txt", "grid.nc", "x.JSON", "c:d.json", "e\"f<g>.json", "map|?.bna", ".hidden.json", "space name.json", "a*1.json", "back\\slash.json"}
DIRS == {<<>>, <<"model">>, <<"model">>, <<"model", "deep">>, <<MAC>>, <<"other">>}
E(i) == [dirs |-> R(DIRS), name |-> R(NAMES), folder |-> R(0..9) = 0, abs |-> R(0..19) = 0, up |-> R({0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3}), size |-> R({0, 1, 50, R(100..3000), R(100..3000)}),
         zeros |-> R(0..5) = 0, stored |-> R(0..3) = 0, nrefs |-> R(0..3)]
Arch(u) == [i \in 1..R(0..6) |-> E(i)]
(* a tidy one: everything in one folder, or none *)
Tidy(u) == LET d == R({<<>>, <<"model">>}) n == R(1..6) IN
   (IF d = <<>> THEN <<>> ELSE <<[dirs |-> d, name |-> "", folder |-> TRUE, abs |-> FALSE, up |-> 0, size |-> 0, zeros |-> FALSE, stored |-> FALSE, nrefs |-> 0]>>)
   \o [i \in 1..n |-> [dirs |-> d, name |-> R(NAMES), folder |-> FALSE, abs |-> FALSE, up |-> 0, size |-> R(100..3000), zeros |-> R(0..5) = 0, stored |-> FALSE, nrefs |-> R(0..3)]]
   \o (IF R(0..2) = 0 THEN <<[dirs |-> <<MAC>>, name |-> "a.json", folder |-> R({TRUE, FALSE}), abs |-> FALSE, up |-> 0, size |-> 10, zeros |-> FALSE, stored |-> FALSE, nrefs |-> 0]>> ELSE <<>>)
(* old saves *)
OLD(v) == {"gnome.model.Model", "gnome.environment.wind.Wind", "gnome.weatherers.evaporation.Evaporation"}
          \cup (IF v < 3 THEN DOMAIN STEPS[3] ELSE {"gnome.spills.spill.Spill", "gnome.movers.c_current_movers.CatsMover"})
          \cup (IF v < 4 THEN {WDATA} ELSE {}) \cup (IF v < 5 THEN DOMAIN STEPS[5] ELSE {"gnome.movers.py_wind_movers.WindMover"})
File(v, i, n) == [type |-> IF i = 1 THEN "gnome.model.Model" ELSE IF v = 1 /\ i <= 3 THEN WINDAGE ELSE IF R(0..4) = 0 /\ v < 4 THEN WDATA ELSE IF v = 1 /\ i > 3 /\ R(0..4) = 0 THEN OIL ELSE R(OLD(v)), n |-> R(0..99999),
               list |-> IF i # 1 THEN <<>> ELSE [k \in 1..R(0..n) |-> R(2..n)], range |-> R(0..90), inits |-> IF v = 1 /\ i > 3 /\ R(0..2) = 0 THEN R({<<2>>, <<3>>, <<2>>, <<4>>}) ELSE <<>>]
Old(u) == LET v == R(1..5) n == R(4..9) IN [v |-> v, files |-> [i \in 1..n |-> File(v, i, n)], broken |-> R(0..9) = 0, twice |-> R({TRUE, FALSE})]
ONAMES == {"plain", "Water", "a/b", "../up", "x:y", "sp ace", "dot.ted", "q?*"}
Op(u) == LET k == R(0..19) IN
  CASE k < 6 -> <<"judge", R({Arch(u), Arch(u), Tidy(u)}), R({"zip", "zip", "zip", "zip", "zip", "text", "corrupt", "cut"}), R({1024, 2000, 1048576}), R({1, 5, 54})>>
    [] k < 11 -> <<"extract", R({Tidy(u), Tidy(u), Arch(u)}), R({"updater", "updater", "open", "plain", "prefix"})>>
    [] k < 15 -> <<"save", R(ONAMES), R({"dir", "dir", "zip", "gnome", "bare", "none", "open", "path"}), R({"none", "zip", "other"}), R({TRUE, FALSE})>>
    [] OTHER -> <<"upgrade", Old(u)>>
Init == hist = <<>>
Next == /\ Len(hist) < LEN /\ hist' = Append(hist, Op(Len(hist))) /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist')))
Spec == Init /\ [][Next]_hist
=============================================================================
