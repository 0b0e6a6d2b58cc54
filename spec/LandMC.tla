------------------------------- MODULE LandMC -------------------------------
(* exhaustive: every small raster with few land cells, every pair of cells on and around it,
   and an element pushed about on it *)
EXTENDS Land, TLC, Json
CONSTANTS M, N, MaxLand, Margin, Depth
VARIABLES g, a, b, el, hist, h

Grids == {[m |-> M, n |-> N, c |-> [x \in 1..M |-> [y \in 1..N |-> IF <<x, y>> \in s THEN 1 ELSE 0]]]
          : s \in {t \in SUBSET ((1..M) \X (1..N)) : Cardinality(t) <= MaxLand}}
Cells == ((-Margin)..(M - 1 + Margin)) \X ((-Margin)..(N - 1 + Margin))
Init == /\ g \in Grids /\ a \in Cells /\ b \in Cells /\ h \in {-1, 0, 1}
        /\ el = [st |-> WaterS, at |-> a, lw |-> a] /\ hist = 0
Moves == {<<x, y>> : x \in -2..2, y \in -2..2}
Clip(p) == p \in Cells
(* refloat (when allowed), then push *)
Next == /\ hist < Depth
        /\ hist' = hist + 1
        /\ UNCHANGED <<g, a, b, h>>
        /\ \E re \in BOOLEAN, d \in Moves :
             LET e0 == IF el.st = LandS /\ re /\ h >= 0 THEN [el EXCEPT !.st = WaterS, !.at = el.lw] ELSE el
                 to == <<e0.at[1] + d[1], e0.at[2] + d[2]>>
             IN /\ Clip(to)
                /\ el' = IF e0.st = LandS THEN e0 ELSE Push(g, h, e0.at, to)
Spec == Init /\ [][Next]_<<g, a, b, el, hist, h>>

(* the moving element: b is not used *)
InitEl == Init /\ b = a
SpecEl == InitEl /\ [][Next]_<<g, a, b, el, hist, h>>
(* single cases to replay *)
InitC == Init /\ h = 1
SpecC == InitC /\ [][FALSE]_<<g, a, b, el, hist, h>>

F == First(g, a, b)
StartsInWater == ~IsLand(g, a[1], a[2])
InvHitIsLand == F.hit => IsLand(g, F.at[1], F.at[2])
InvPrevIsWater == (F.hit /\ StartsInWater) => ~IsLand(g, F.prev[1], F.prev[2])
InvPrevAdjacent == (F.hit /\ StartsInWater) => Abs(F.at[1] - F.prev[1]) <= 1 /\ Abs(F.at[2] - F.prev[2]) <= 1
InvEndNotLand == (~F.hit /\ StartsInWater) => ~IsLand(g, b[1], b[2])
InvBox == F.hit => Min2(a[1], b[1]) <= F.at[1] /\ F.at[1] <= Max2(a[1], b[1])
                   /\ Min2(a[2], b[2]) <= F.at[2] /\ F.at[2] <= Max2(a[2], b[2])
(* a full row (or staircase) of land cannot be crossed: no path from one side to the other without a hit *)
WallX(x) == \A y \in 0..(N - 1) : IsLand(g, x, y)
InvWall == \A x \in 0..(M - 1) : (WallX(x) /\ OnGrid(g, a[1], a[2]) /\ OnGrid(g, b[1], b[2]) /\ a[1] < x /\ b[1] > x) => F.hit
Stair == {<<x, y>> \in (0..(M - 1)) \X (0..(N - 1)) : x + y = M - 1}
InvStair == (M = N /\ (\A p \in Stair : IsLand(g, p[1], p[2])) /\ OnGrid(g, a[1], a[2]) /\ OnGrid(g, b[1], b[2])
             /\ a[1] + a[2] < M - 1 /\ b[1] + b[2] > M - 1) => F.hit
InvCoarse == BoxFree(Coarse(g, 2), 2, a, b) => ~F.hit
InvEl == StartsInWater =>
           /\ el.st = WaterS => ~IsLand(g, el.at[1], el.at[2])
           /\ el.st = LandS => IsLand(g, el.at[1], el.at[2]) /\ h # 0
           /\ ~IsLand(g, el.lw[1], el.lw[2])
Emit == PrintT("GEN|" \o ToJson([c |-> g.c, a |-> a, b |-> b]))
==============================================================================
