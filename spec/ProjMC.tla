------------------------------- MODULE ProjMC -------------------------------
(* the projections of the specification make sense, over all small boxes, images and points *)
EXTENDS Proj, TLC
CONSTANTS BOXES, SIZES, STEPS
VARIABLES p, q
vars == <<p, q>>
Kinds == {"geo", "flat", "reg"}
Boxes == {<<w, s, w + a, s + b>> : w \in {-1700, -35, 0, 120}, s \in {-600, 0, 300}, a \in BOXES, b \in BOXES}
Good(k, b) == k # "flat" \/ (b[2] + b[4]) % 20 = 0
Init == /\ p \in {[kind |-> k, box |-> b, size |-> <<x, y>>] : k \in Kinds, b \in Boxes, x \in SIZES, y \in SIZES}
        /\ Good(p.kind, p.box)
        /\ q \in STEPS \X STEPS
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* a point so many eighths into the box *)
Pt == <<100 * p.box[1] + (100 * BW(p.box) * q[1]) \div 8, 100 * p.box[2] + (100 * BH(p.box) * q[2]) \div 8>>
Back == LET d == ToDeg(p, ToPix(p, Pt)) IN
        \* a hundredth of a pixel is this many millionths of a degree
        /\ Near(d[1], 1000 * Pt[1], Abs(XDeg(p, 1 + PixTol(p))) + DegTol(p, d[1] - 1000 * Mid(p.box)[1]) + 4)
        /\ Near(d[2], 1000 * Pt[2], Abs(YDeg(p, 1 + PixTol(p))) + DegTol(p, d[2] - 1000 * Mid(p.box)[2]) + 4)
InImage == LET x == ToPix(p, Pt) IN
        (q[1] \in 0..8 /\ q[2] \in 0..8) => /\ x[1] >= -PixTol(p) /\ x[1] <= 100 * p.size[1] + PixTol(p)
                                           /\ x[2] >= -PixTol(p) /\ x[2] <= 100 * p.size[2] + PixTol(p)
(* the box touches the image's edge in at least one direction, in both for regular grids *)
Fills == LET a == ToPix(p, <<100 * p.box[1], 100 * p.box[4]>>)
             x == Near(a[1], 0, PixTol(p)) y == Near(a[2], 0, PixTol(p))
         IN (x \/ y) /\ (p.kind = "reg" => x /\ y)
NorthIsUp == LET x == ToPix(p, <<Mid(p.box)[1], 100 * p.box[4]>>) IN x[2] < 50 * p.size[2] /\ Near(x[1], 50 * p.size[1], 0)
BoxShown == LET b == ImageBox(p) t == DegTol(p, b[3] - b[1]) + DegTol(p, b[4] - b[2]) IN
            b[1] <= 100000 * p.box[1] + t /\ b[2] <= 100000 * p.box[2] + t /\ b[3] >= 100000 * p.box[3] - t /\ b[4] >= 100000 * p.box[4] - t
Undistorted == p.kind = "geo" => Near(XLen(p, 1000), YLen(p, 1000), 1)
Inv == Back /\ InImage /\ Fills /\ NorthIsUp /\ BoxShown /\ Undistorted
=============================================================================
