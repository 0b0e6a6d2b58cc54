------------------------------- MODULE BirthGen -------------------------------
(* histories of one substance: settings changed, elements released; distributions, droplets and oil data on the side *)
EXTENDS Birth, TLC, Json
CONSTANTS LEN
VARIABLES hist
R(S) == RandomElement(S)
Range(u) == LET a == R({0, 10000, R(0..100000)}) IN R({<<>>, <<a, a>>, <<a, a + R(0..60000)>>, <<a, a + R(0..60000)>>})
Pers(u) == R({NONE, -1, 900, 0 - 7777, R(1..900), R(1..100000)})
Dist(u) ==
  LET k == R({"uniform", "normal", "lognormal", "weibull", "weibull"}) IN
  CASE k = "uniform" -> LET a == R(0..900) IN [kind |-> k, a |-> a, b |-> a + R(0..3000), min |-> NONE, max |-> NONE]
    [] k = "normal" -> [kind |-> k, a |-> R(1..3000), b |-> R(0..100), min |-> NONE, max |-> NONE]
    [] k = "lognormal" -> [kind |-> k, a |-> R(-2000..2000), b |-> R(1..1500), min |-> NONE, max |-> NONE]      (* thousandths *)
    [] OTHER -> LET l == R(100..3000) lo == R({NONE, 0, l \div 4, R(0..l)}) IN     (* alpha in hundredths, lambda in micrometres *)
       [kind |-> k, a |-> R(100..400), b |-> l, min |-> lo, max |-> R({NONE, (3 * l) \div 2, l + R(60..2000)})]
Drop(u) == LET rw == R(990000..1040000) IN <<rw, R({R(750000..989000), R(750000..989000), R(1041000..1200000), rw}), R(800..2000), R({0, R(1..199), 200, 9999, 10000, R(200..9999), R(200..9999), R(10000..20000)})>>
Temps(k) == LET t == R(27000..30000) d == R(400..2500) IN [i \in 1..k |-> t + (i - 1) * d]
Dens(k) == LET t == Temps(k) r == R(780000..1035000) s == R(0..80) IN [i \in 1..k |-> <<t[i], r - (s * (t[i] - t[1])) \div 10>>]
Visc(k) == LET t == Temps(k) v == R(2000..900000) f == R(2..6) IN [i \in 1..k |-> <<t[i], IF i = 1 THEN v ELSE IF i = 2 THEN (v * 10) \div (10 + f) ELSE (v * 10) \div (11 + 2 * f)>>]
Oil(u) == [dens |-> Dens(R(1..3)), visc |-> Visc(R({1, 2, 2, 3})), pour |-> R(22000..29000), api |-> R(8..45),
           frac |-> R({<<1000000>>, <<250000, 750000>>, <<100000, 200000, 700000>>, <<500000, 125000, 125000, 250000>>})]
Sub(u) == LET k == R({"plain", "deep", "oil", "oil"}) IN
   <<"sub", [kind |-> k, range |-> Range(u), pers |-> Pers(u), dens |-> R({1000000, R(780000..1019000), R(1021000..1100000)}), dist |-> Dist(u), oil |-> Oil(u), how |-> R({"ctor", "set", "spill"})]>>
Water(u) == R({<<>>, <<R({28815, R(27400..30500)}), R(0..36), R({"K", "C", "F"})>>, <<R(27400..30500), R(0..36), R({"K", "C"})>>})
Attr(u) == R({"temperature", "wave_height", "fetch", "sediment"})
Value(a) == CASE a = "temperature" -> R(27300..31000) [] a = "wave_height" -> R(0..9000) [] a = "fetch" -> R(0..100000) [] OTHER -> R(0..20000)
Op(u) == LET k == R(0..35) IN
   CASE k < 10 -> <<"rel", R({1, 1, 2, 3, R(1..12)}), R({0, 0, R(1..50)}), Water(u), R(1..1000000)>>
     [] k < 13 -> <<"range", R({<<>>, <<R(0..50000), 50000 + R(0..50000)>>, <<-R(1..5000), R(0..9000)>>, <<R(0..5000), -R(1..9000)>>, <<R(1..9000)>>, <<1000, 2000, 3000>>})>>
     [] k < 16 -> <<"pers", R({0, 0, NONE, -1, 0 - 7777, R(1..10000)})>>
     [] k < 19 -> <<"dist", Dist(u)>>
     [] k < 21 -> <<"baddist", R({"nolow", "nohigh", "nomean", "nosigma", "nolmean", "noalpha", "minneg", "minhigh", "maxzero", "maxlow", "maxmin", "maxtiny", "maxequal", "noname", "riseNone", "dropNone"})>>
     [] k < 24 -> <<"rise", [i \in 1..R(1..8) |-> Drop(i)]>>
     [] k < 28 -> <<"oil", Oil(u), [i \in 1..R(1..6) |-> R({R(26000..32000), R(26000..32000), R(20000..40000)})]>>
     [] k = 28 -> <<"rayleigh", R(1..40), R(1..999)>>
     [] k = 29 -> <<"crowd", R(200..400)>>
     [] k < 33 -> LET a == Attr(u) IN <<"wset", a, Value(a), R(MEASURES[a]), R({"set", "ctor", "attr"})>>
     [] k = 33 -> LET a == R({"temperature", "wave_height"}) IN <<"wunit", a, R(MEASURES[a] \cup {"furlong per moon"})>>
     [] OTHER -> <<"fraction", R(100..400), R(100..3000), R(0..4000)>>
Init == hist = <<>>
Next == /\ Len(hist) < LEN
        /\ hist' = Append(hist, IF hist = <<>> THEN Sub(0) ELSE Op(Len(hist)))
        /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist')))
Spec == Init /\ [][Next]_hist
=============================================================================
