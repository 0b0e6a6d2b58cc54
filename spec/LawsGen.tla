------------------------------- MODULE LawsGen -------------------------------
(* histories of a slick: the weather over it, the processes acting on it for a while, elements pushed into unusual states *)
EXTENDS Laws, TLC, Json
CONSTANTS LEN
VARIABLES hist
R(S) == RandomElement(S)
Fracs(u) == R({<<1000000>>, <<250000, 750000>>, <<100000, 200000, 700000>>, <<500000, 125000, 125000, 250000>>, <<300000, 0, 700000>>})
(* viscosity 10^-9 m2/s, density g/m3, hours and share for emulsification, greatest water content in millionths *)
Oil(u) == [frac |-> Fracs(u), dens |-> R(780000..985000), visc |-> R({R(500..2000), R(2000..100000), R(100000..9000000)}), boil |-> R(300..420), gap |-> R(20..90),
           mw |-> R(40..120), heavy |-> R(0..900), when |-> R({-999, -999, 0, R(1..9), R(1..300)}), share |-> R({0, R(1..300000), 200000}), ymax |-> R({0, R(1..950000), 900000, 600000})]
(* wind cm/s, how much more per element, temperature cK, salinity, wave height cm or -1, fetch m or -1, sediment mg/l *)
Sky(u) == [wind |-> R({0, R(1..99), R(100..450), 443, R(450..3500), R(450..3500)}), vary |-> R({0, 0, R(1..60)}), temp |-> R(27300..31000), sal |-> R({0, 35, R(0..40)}),
           wave |-> R({-1, -1, 0, R(1..60), R(1..900)}), fetch |-> R({-1, -1, R(1..500), R(1..500000)}), sed |-> R({0, 5, R(1..500)}), real |-> R(BOOLEAN)]
Dt(u) == R({1, R(1..60), 600, 900, 3600, R(1..20000)})
First(u) == <<"oil", Oil(u), Sky(u), [i \in 1..R(1..2) |-> [n |-> R({1, 2, 3, R(1..9)}), kg |-> R(1..80), z |-> R({0, 0, 0, 0, 4}), dur |-> R({0, 0, 60})]]>>
Op(u) == LET k == R(0..47) IN
   CASE k < 6 -> <<"evap", Dt(u), R({"on", "on", "on", "on", "off", "late"})>>
     [] k < 12 -> <<"spread", Dt(u), R({"on", "on", "on", "on", "off", "late"})>>
     [] k < 16 -> <<"lang", Dt(u), R({"on", "on", "on", "off"})>>
     [] k < 22 -> <<"disp", Dt(u), R({"on", "on", "on", "off", "late"}), R({"D&S1988", "D&S1988", "Li2017"})>>
     [] k < 28 -> <<"emul", Dt(u), R({"on", "on", "on", "on", "off", "late"})>>
     [] k < 32 -> <<"props">>
     [] k < 34 -> <<"half", Dt(u), R({"on", "on", "off"}), [i \in 1..4 |-> R(1..100000)]>>
     [] k < 37 -> <<"waves">>
     [] k < 39 -> <<"sky", Sky(u)>>
     [] k < 41 -> <<"age", R({60, 900, R(1..100000)})>>
     [] k < 44 -> <<"poke", R(1..9), R({"area", "area", "fw", "fe", "visc", "dens", "mass"}), R(0..1000)>>
     [] k = 44 -> <<"fate", R(1..9), R({1, 2, 2, 4})>>
     [] k = 45 -> <<"thin", R({0, 999, 1000, 1001, 99999, 100000, 100001, R(1..2000), R(1000..200000), R(1..2000000000)})>>
     [] k = 46 -> <<"first", R(1..2000000), R(800..2000000), R(1..300000), R(10000..100000)>>
     [] OTHER -> <<"langbound", R(1..300000), R(10000..100000)>>
Init == hist = <<>>
Next == /\ Len(hist) < LEN
        /\ hist' = Append(hist, IF hist = <<>> THEN First(0) ELSE Op(Len(hist)))
        /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist')))
Spec == Init /\ [][Next]_hist
=============================================================================
