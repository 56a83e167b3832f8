------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* Exact planar predicates.  A point is a pair <<x, y>>.  The definitions  *)
(* below are the meaning of every operator on integer coordinates.  For    *)
(* coordinates recorded from the implementation (IEEE doubles, written as  *)
(* decimal strings that denote exactly one double) and for speed, TLC      *)
(* replaces them by /verif/java/Exact.java, which evaluates the same       *)
(* expressions without rounding (BigDecimal behind a floating filter).     *)
(* ExactCross.tla checks that both agree.                                  *)
(*                                                                         *)
(* Operators with a last argument e take a relative tolerance of 10^-e and *)
(* are used only where the implementation's own vertices are rounded (the  *)
(* split points and circumcenters of a refinement); the pure definitions   *)
(* are their meaning for a vanishing tolerance.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN 0 - 1 ELSE 0

Sq(n) == n * n

\* twice the signed area of the triangle a b c
Det2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])

\* 1: a b c turn left;  -1: right;  0: collinear
Orient(a, b, c) == Sgn(Det2(a, b, c))

\* for a b c counterclockwise: 1 d inside the circumcircle, 0 on it, -1 outside
InCircle(a, b, c, d) ==
  LET ax == a[1] - d[1]  ay == a[2] - d[2]
      bx == b[1] - d[1]  by == b[2] - d[2]
      cx == c[1] - d[1]  cy == c[2] - d[2]
      as == ax * ax + ay * ay
      bs == bx * bx + by * by
      cs == cx * cx + cy * cy
  IN  Sgn(as * (bx * cy - by * cx) - bs * (ax * cy - ay * cx) + cs * (ax * by - ay * bx))

\* sign of (a-c).(b-c):  -1: c strictly inside the circle with diameter a b
DotAt(a, b, c) == Sgn((a[1] - c[1]) * (b[1] - c[1]) + (a[2] - c[2]) * (b[2] - c[2]))

\* sign of the coordinate along a -> b of q relative to that of p
Along(a, b, p, q) == Sgn((q[1] - p[1]) * (b[1] - a[1]) + (q[2] - p[2]) * (b[2] - a[2]))

CmpX(a, b) == Sgn(a[1] - b[1])
CmpY(a, b) == Sgn(a[2] - b[2])

\* p on the closed segment a b
OnSeg(a, b, p) ==
  /\ Orient(a, b, p) = 0
  /\ CmpX(a, p) * CmpX(p, b) >= 0
  /\ CmpY(a, p) * CmpY(p, b) >= 0

\* squared length comparison |ab| ? |cd|
CmpLen(a, b, c, d) ==
  Sgn(Sq(b[1] - a[1]) + Sq(b[2] - a[2]) - Sq(d[1] - c[1]) - Sq(d[2] - c[2]))

\* the angle a v b is smaller than 60 degrees
Sharp(v, a, b) ==
  LET d == (a[1] - v[1]) * (b[1] - v[1]) + (a[2] - v[2]) * (b[2] - v[2])
  IN  d > 0 /\ 4 * d * d > (Sq(a[1] - v[1]) + Sq(a[2] - v[2])) * (Sq(b[1] - v[1]) + Sq(b[2] - v[2]))

----------------------------------------------------------------------------
(* tolerant versions *)

InCircleT(a, b, c, d, e) == InCircle(a, b, c, d)
DotAtT(a, b, c, e) == DotAt(a, b, c)
OnSegT(a, b, p, e) == OnSeg(a, b, p)
OnLineT(a, b, p, e) == Orient(a, b, p) = 0

RECURSIVE SumTris(_)
SumTris(ts) == IF ts = <<>> THEN 0 ELSE Det2(ts[1][1], ts[1][2], ts[1][3]) + SumTris(Tail(ts))

RECURSIVE SumLoop(_, _)
SumLoop(l, i) == IF i > Len(l) THEN 0
                 ELSE LET p == l[i]  q == l[(i % Len(l)) + 1]
                      IN  p[1] * q[2] - q[1] * p[2] + SumLoop(l, i + 1)

\* twice the signed area enclosed by the loop l
LoopArea2(l) == SumLoop(l, 1)

LoopSign(l) == Sgn(LoopArea2(l))

RECURSIVE SumLoops(_)
SumLoops(ls) == IF ls = <<>> THEN 0 ELSE LoopArea2(ls[1]) + SumLoops(Tail(ls))

\* the triangles ts cover the area of loops outs minus that of loops ins
AreaEq(ts, outs, ins, e) == SumTris(ts) = SumLoops(outs) - SumLoops(ins)

\* sign of  circumradius / shortest side - n/d  of the triangle a b c
RatioCmp(a, b, c, n, d, e) ==
  LET l1 == Sq(b[1] - a[1]) + Sq(b[2] - a[2])
      l2 == Sq(c[1] - b[1]) + Sq(c[2] - b[2])
      l3 == Sq(a[1] - c[1]) + Sq(a[2] - c[2])
      s  == IF l1 <= l2 /\ l1 <= l3 THEN l1 ELSE IF l2 <= l3 THEN l2 ELSE l3
  IN  Sgn(l1 * l2 * l3 * d * d - n * n * s * 4 * Sq(Det2(a, b, c)))

\* sign of  area - n/d  of the triangle a b c
AreaCmp(a, b, c, n, d, e) == Sgn(Det2(a, b, c) * d - 2 * n)

=============================================================================
