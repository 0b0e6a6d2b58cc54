-------------------------------- MODULE Land --------------------------------
(* C07 C08.  The land-water raster and what it does to moving elements.
   g = [m, n, c]: c[x+1][y+1] = 1 is land; everything off the raster is water.
   An element moves along the raster line (Bresenham) from its old to its new cell:
   the first land cell on that line, or a diagonal step between two land cells,
   stops it there; the cell before is its last position in the water. *)
EXTENDS Util

OnGrid(g, x, y) == x >= 0 /\ x < g.m /\ y >= 0 /\ y < g.n
IsLand(g, x, y) == OnGrid(g, x, y) /\ g.c[x + 1][y + 1] # 0
NoHit == [hit |-> FALSE, at |-> <<0, 0>>, prev |-> <<0, 0>>]
HitAt(x, y, px, py) == [hit |-> TRUE, at |-> <<x, y>>, prev |-> <<px, py>>]

(* was: has the line been on the raster yet *)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(g, x, y, b, err, d, was) ==
  IF x = b[1] /\ y = b[2] THEN NoHit
  ELSE LET dx == d[1]
           dy == d[2]
           sx == d[3]
           sy == d[4]
           e2 == 2 * err
           mx == e2 > -dy
           my == e2 < dx
           nx == IF mx THEN x + sx ELSE x
           ny == IF my THEN y + sy ELSE y
           ne == err - (IF mx THEN dy ELSE 0) + (IF my THEN dx ELSE 0)
       IN IF ~OnGrid(g, nx, ny)
          THEN IF was THEN NoHit ELSE Walk(g, nx, ny, b, ne, d, was)
          ELSE IF IsLand(g, nx, ny) THEN HitAt(nx, ny, x, y)
          ELSE IF was /\ mx /\ my /\ IsLand(g, nx, ny - sy) /\ IsLand(g, nx - sx, ny) THEN HitAt(nx, ny - sy, x, y)
          ELSE Walk(g, nx, ny, b, ne, d, TRUE)

Outside(g, a, b) == \/ a[1] < 0 /\ b[1] < 0
                    \/ a[2] < 0 /\ b[2] < 0
                    \/ a[1] >= g.m /\ b[1] >= g.m
                    \/ a[2] >= g.n /\ b[2] >= g.n
First(g, a, b) ==
  IF Outside(g, a, b) THEN NoHit
  ELSE IF IsLand(g, a[1], a[2]) THEN HitAt(a[1], a[2], a[1], a[2])
  ELSE LET dx == Abs(b[1] - a[1])
           dy == Abs(b[2] - a[2])
       IN Walk(g, a[1], a[2], b, dx - dy,
               <<dx, dy, IF a[1] < b[1] THEN 1 ELSE -1, IF a[2] < b[2] THEN 1 ELSE -1>>, OnGrid(g, a[1], a[2]))

(* ---------------------------- one element, one step ---------------------------- *)
(* h: refloat half-life, in any unit: < 0 never, 0 at once *)
WaterS == 2
LandS == 3
(* where an element in the water at cell a, pushed to cell b, ends up *)
Push(g, h, a, b) ==
  LET f == First(g, a, b)
  IN IF ~f.hit THEN [st |-> WaterS, at |-> b, lw |-> b]
     ELSE IF h = 0 THEN [st |-> WaterS, at |-> f.prev, lw |-> f.prev]
     ELSE [st |-> LandS, at |-> f.at, lw |-> f.prev]

(* coarser raster: a cell is land if any cell under it is *)
Coarse(g, r) == LET cm == CeilDiv(g.m, r)
                    cn == CeilDiv(g.n, r)
                IN [m |-> cm, n |-> cn,
                    c |-> [i \in 1..cm |-> [j \in 1..cn |->
                           IF \E x \in ((i - 1) * r)..(i * r - 1), y \in ((j - 1) * r)..(j * r - 1) : IsLand(g, x, y) THEN 1 ELSE 0]]]
BoxFree(cg, r, a, b) ==
  LET x0 == Max2(Min2(a[1], b[1]), 0) \div r
      x1 == Max2(a[1], b[1]) \div r
      y0 == Max2(Min2(a[2], b[2]), 0) \div r
      y1 == Max2(a[2], b[2]) \div r
  IN \A x \in x0..x1, y \in y0..y1 : ~IsLand(cg, x, y)
==============================================================================
