-------------------------------- MODULE Proj --------------------------------
(* Map projections and distances in integers.
   Boxes: west, south, east, north in tenths of a degree; images: width, height in pixels;
   positions in thousandths of a degree; pixels in hundredths of a pixel, x to the right, y downwards.
   A projection is [kind, box, size]; kinds: "geo" (degrees to pixels), "flat" (longitude shrunk by the cosine of the
   middle latitude), "reg" (box and image coincide, both ways). *)
EXTENDS Util
SINS == << 0, 17452, 34899, 52336, 69756, 87156, 104528, 121869, 139173, 156434, 173648, 190809, 207912, 224951, 241922, 258819, 275637, 292372, 309017, 325568, 342020, 358368, 374607, 390731, 406737, 422618, 438371, 453990, 469472, 484810, 500000, 515038, 529919, 544639, 559193, 573576, 587785, 601815, 615661, 629320, 642788, 656059, 669131, 681998, 694658, 707107, 719340, 731354, 743145, 754710, 766044, 777146, 788011, 798636, 809017, 819152, 829038, 838671, 848048, 857167, 866025, 874620, 882948, 891007, 898794, 906308, 913545, 920505, 927184, 933580, 939693, 945519, 951057, 956305, 961262, 965926, 970296, 974370, 978148, 981627, 984808, 987688, 990268, 992546, 994522, 996195, 997564, 998630, 999391, 999848, 1000000 >>
(* sine and cosine, in millionths, of whole degrees *)
RECURSIVE Sin6(_)
Sin6(d) == IF d < 0 THEN -Sin6(-d) ELSE IF d >= 360 THEN Sin6(d % 360) ELSE IF d > 180 THEN -Sin6(d - 180)
           ELSE IF d > 90 THEN SINS[180 - d + 1] ELSE SINS[d + 1]
Cos6(d) == Sin6(d + 90)
(* a * 10^k / c towards zero, without large numbers *)
RECURSIVE Digits(_, _, _, _)
Digits(q, r, c, k) == IF k = 0 THEN q ELSE Digits(10 * q + (10 * r) \div c, (10 * r) % c, c, k - 1)
DS(a, c, k) == IF a >= 0 THEN Digits(a \div c, a % c, c, k) ELSE -Digits((-a) \div c, (-a) % c, c, k)
(* times and divided by a fraction given in millionths *)
RECURSIVE MulFrac(_, _)
MulFrac(a, f) == IF f < 0 THEN -MulFrac(a, -f) ELSE IF a < 0 THEN -MulFrac(-a, f)
                 ELSE (a \div 1000000) * f + (((a % 1000000) \div 1000) * f + ((a % 1000) * f) \div 1000) \div 1000
DivFrac(a, f) == DS(a, f, 6)

BW(b) == b[3] - b[1]
BH(b) == b[4] - b[2]
Mid(b) == <<50 * (b[1] + b[3]), 50 * (b[2] + b[4])>>     (* the centre, in thousandths *)
Shrink(p) == IF p.kind = "flat" THEN Cos6((p.box[2] + p.box[4]) \div 20) ELSE 1000000
Fit(p) == DS(p.size[1] * BH(p.box), BW(p.box) * p.size[2], 6)
(* is it the width that limits the scale? *)
WidthLimits(p) == IF p.kind = "flat" THEN p.size[1] * BH(p.box) < BW(p.box) * p.size[2] /\ Shrink(p) > Fit(p) ELSE BW(p.box) * p.size[2] > p.size[1] * BH(p.box)
(* hundredths of a pixel that d thousandths of a degree extend over *)
XLen(p, d) == CASE p.kind = "reg" \/ WidthLimits(p) -> DS(d * p.size[1], BW(p.box), 0)
                [] OTHER -> MulFrac(DS(d * p.size[2], BH(p.box), 0), Shrink(p))
YLen(p, d) == CASE p.kind = "reg" \/ ~WidthLimits(p) -> DS(d * p.size[2], BH(p.box), 0)
                [] OTHER -> DivFrac(DS(d * p.size[1], BW(p.box), 0), Shrink(p))
ToPix(p, q) == <<50 * p.size[1] + XLen(p, q[1] - Mid(p.box)[1]), 50 * p.size[2] - YLen(p, q[2] - Mid(p.box)[2])>>
(* millionths of a degree that x hundredths of a pixel extend over *)
XDeg(p, x) == CASE p.kind = "reg" \/ WidthLimits(p) -> DS(x * BW(p.box), p.size[1], 3)
                [] OTHER -> DivFrac(DS(x * BH(p.box), p.size[2], 3), Shrink(p))
YDeg(p, y) == CASE p.kind = "reg" \/ ~WidthLimits(p) -> DS(y * BH(p.box), p.size[2], 3)
                [] OTHER -> MulFrac(DS(y * BW(p.box), p.size[1], 3), Shrink(p))
ToDeg(p, x) == <<1000 * Mid(p.box)[1] + XDeg(p, x[1] - 50 * p.size[1]), 1000 * Mid(p.box)[2] - YDeg(p, x[2] - 50 * p.size[2])>>
(* of the integer arithmetic above *)
PixTol(p) == IF p.kind = "flat" THEN 3 + 1000000 \div Shrink(p) ELSE 2
DegTol(p, d) == IF p.kind = "flat" THEN 4 + (2 * Abs(d)) \div Shrink(p) + 2000000 \div Shrink(p) ELSE 2
(* what the whole image shows *)
ImageBox(p) == IF p.kind = "reg" THEN <<1000 * p.box[1] * 100, 1000 * p.box[2] * 100, 1000 * p.box[3] * 100, 1000 * p.box[4] * 100>>
               ELSE LET a == ToDeg(p, <<0, 100 * p.size[2]>>) b == ToDeg(p, <<100 * p.size[1], 0>>) IN a \o b

(* a grid of unequal spacing (tenths of a degree): position in thousandths -> hundredths of an index, held to the grid *)
Clip(v, lo, hi) == Max2(lo, Min2(hi, v))
GridPos(g, v) == LET x == Clip(v, 100 * g[1], 100 * g[Len(g)])
                     i == CHOOSE k \in 1..(Len(g) - 1) : 100 * g[k] <= x /\ (x < 100 * g[k + 1] \/ k = Len(g) - 1)
                 IN 100 * (i - 1) + (x - 100 * g[i]) \div (g[i + 1] - g[i])
GridDeg(g, x) == LET v == Clip(x, 0, 100 * (Len(g) - 1))
                     i == Min2(v \div 100, Len(g) - 2) + 1
                 IN 100 * g[i] + (v - 100 * (i - 1)) * (g[i + 1] - g[i])          (* thousandths *)

(* metres to millionths of a degree of latitude: 8.9992801 to the metre *)
MLat(m) == 9 * m - DS(m * 7199, 10000000, 0)
(* and along a parallel *)
MLon(m, lat) == DivFrac(MLat(m), Cos6(lat))
=============================================================================
