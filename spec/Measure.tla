------------------------------ MODULE Measure ------------------------------
(***************************************************************************)
(* Relations between recorded numbers or points and the exact quantities   *)
(* they stand for.  As in Exact.tla, the definitions are the meaning on    *)
(* integer coordinates; java/Measure.java replaces them for doubles, with  *)
(* an allowance for the rounding of a handful of operations on operands of *)
(* the magnitude of the coordinates.                                       *)
(***************************************************************************)
EXTENDS Exact

\* twice a point and the sum of two points (the midpoint, doubled)
Dbl(a) == <<2 * a[1], 2 * a[2]>>
Sum(a, b) == <<a[1] + b[1], a[2] + b[2]>>

\* r = (b - a) . (d - c)
DotIs(r, a, b, c, d) == r = (b[1] - a[1]) * (d[1] - c[1]) + (b[2] - a[2]) * (d[2] - c[2])

\* r = |ab|
DistIs(r, a, b) == r >= 0 /\ r * r = Sq(b[1] - a[1]) + Sq(b[2] - a[2])

\* r = signed area of a b c;  of the loop l
AreaIs(r, a, b, c) == 2 * r = Det2(a, b, c)
LoopAreaIs(r, l) == 2 * r = LoopArea2(l)

\* m is the midpoint of a b;  the centroid of a b c
MidIs(m, a, b) == 2 * m[1] = a[1] + b[1] /\ 2 * m[2] = a[2] + b[2]
CentroidIs(m, a, b, c) == 3 * m[1] = a[1] + b[1] + c[1] /\ 3 * m[2] = a[2] + b[2] + c[2]

\* m has the same distance to a, b and c
CenterIs(m, a, b, c) == CmpLen(m, a, m, b) = 0 /\ CmpLen(m, a, m, c) = 0

\* r is the cosine of the angle at b between ba and bc
CosIs(r, a, b, c) ==
  LET d == (a[1] - b[1]) * (c[1] - b[1]) + (a[2] - b[2]) * (c[2] - b[2])
  IN  Sgn(r) = Sgn(d) /\ r * r * (Sq(a[1] - b[1]) + Sq(a[2] - b[2])) * (Sq(c[1] - b[1]) + Sq(c[2] - b[2])) = d * d

\* directions a->b and c->d are parallel
Parallel(a, b, c, d) == (b[1] - a[1]) * (d[2] - c[2]) = (b[2] - a[2]) * (d[1] - c[1])

\* sign of (b - a) . (d - c)
DotSgn(a, b, c, d) == Sgn((b[1] - a[1]) * (d[1] - c[1]) + (b[2] - a[2]) * (d[2] - c[2]))

(* The sign s of the quantity is plain: it is computed without doubt even  *)
(* in rounded arithmetic (with integers: always).                          *)
PlainOrient(a, b, c) == TRUE
PlainInCircle(a, b, c, d) == TRUE
PlainDot(a, b, c) == TRUE

=============================================================================
