------------------------------- MODULE Round -------------------------------
(***************************************************************************)
(* Points a refinement introduces, rounded to integers: what rounding to   *)
(* doubles is in the implementation.  (Center is replaced by               *)
(* java/Round.java, because TLC's integers have 32 bits.)                  *)
(***************************************************************************)
EXTENDS Exact

Middle(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
Whole(a, b)  == (a[1] + b[1]) % 2 = 0 /\ (a[2] + b[2]) % 2 = 0

\* n / d to the nearest integer
Nearest(n, d) == IF d > 0 THEN (2 * n + d) \div (2 * d) ELSE (0 - 2 * n - d) \div (0 - 2 * d)

\* the circumcenter
Center(a, b, c) ==
  LET u == <<b[1] - a[1], b[2] - a[2]>>
      v == <<c[1] - a[1], c[2] - a[2]>>
      d == 2 * (u[1] * v[2] - u[2] * v[1])
      s == u[1] * u[1] + u[2] * u[2]
      t == v[1] * v[1] + v[2] * v[2]
  IN  <<a[1] + Nearest(v[2] * s - u[2] * t, d), a[2] + Nearest(u[1] * t - v[1] * s, d)>>
=============================================================================
